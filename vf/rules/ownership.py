"""C07 destructors release everything an object owns, C08 no leak on any return path, C09 no use after free."""
from ..check import rule
from ..core import is_local, subexprs
from ..build import AnalysisError
from ..esp import explore, noreturn_set
from ..util import (PROB, allocators, fresh_sources, freers, callee_slot, path_of, loops, lift, liftable)
from ..flow import Summaries, ext_name


def prep(P):
    if hasattr(P, "_own"):
        return P._own
    A = set(allocators(P)) | {"fopen"}
    # constructors that also return what they were given are still allocators here (fresh or null on every path)
    P._own = (A, Summaries(P), freers(P) | {"fclose"})
    return P._own


def phi_kills(F):
    out = {}
    for b in F.blocks.values():
        ph = {i.res for i in b.instrs if i.op == "phi"}
        if ph:
            first = next(i for i in b.instrs if i.op != "phi")
            out[id(first)] = ph
    return out


def mentions(e, names):
    return any(x[0] == "v" and x[1] in names for x in subexprs(e))


def conditional(P):
    """functions that release a parameter on some return paths and not on others (and not because it is null)"""
    if hasattr(P, "_cond"):
        return P._cond
    A, S, Fr = prep(P)
    out = {}
    for (f, i), eff in sorted(S.eff.items()):
        if "F" not in eff or f not in P.F:
            continue
        F = P.F[f]
        a = ("arg", i)

        def tr(ins, st, ctx):
            if ins.op == "call":
                for k, v in enumerate(P.args(ins)):
                    if is_local(v) and ins.optys[k] == "ptr" and ctx.resolve(P.expr(F, v)) == a and \
                            "F" in S.call_effects(ins, k):
                        return True
            elif ins.op == "store" and is_local(ins.ops[0]) and ctx.resolve(P.expr(F, ins.ops[0])) == a:
                return st or "kept"
        R = explore(P, F, [False], tr, keep={a})
        res = {("null" if (not st and facts.get(("=", a)) == 0) else st) for _, st, _, facts in R.exits}
        res.discard("null")
        if res != {True} and res:
            out.setdefault(f, {})[i] = res
    P._cond = out
    return out


# ------------------------------------------------------------------------------------------ C09
def uaf_transfer(P, F, S, report):
    kills = phi_kills(F)
    mods = P.mods()

    cur = [None]

    def ctxres(b):
        return cur[0].resolve(b)

    def check_addr(ins, st, addr, what):
        b = addr
        while b[0] in ("fld", "idx"):
            b = b[1]
        if b in st or ctxres(b) in st:
            report(ins, b, what)

    def tr(ins, st, ctx):
        out = st
        cur[0] = ctx
        ks = kills.get(id(ins))
        if ks:
            out = frozenset(e for e in out if not mentions(e, ks))
        if ins.res:
            out = frozenset(e for e in out if not mentions(e, {ins.res}))
        if ins.op == "load":
            check_addr(ins, out, P.expr(F, ins.ops[0]), "is read")
        elif ins.op == "store":
            a = P.expr(F, ins.ops[1])
            check_addr(ins, out, a, "is written")
            out = frozenset(e for e in out if not any(x == ("ld", a) for x in subexprs(e)))
        elif ins.op == "call":
            fr = []
            for k, a in enumerate(P.args(ins)):
                if not is_local(a) or ins.optys[k] != "ptr":
                    continue
                e = ctx.resolve(P.expr(F, a))
                if e[0] == "c":
                    continue
                b = e
                while b[0] in ("fld", "idx"):
                    b = b[1]
                b = ctx.resolve(b)
                if b in out:
                    report(ins, b, "is passed to %s" % (P.callee(ins) or "a function"))
                if "F" in S.call_effects(ins, k):
                    fr.append(e)
            ts = P.targets(ins)
            if out:
                ms = set()
                for t in ts:
                    ms |= set(mods.get(t, ()))
                if ms:
                    keep = []
                    for e in out:
                        bad = False
                        for x in subexprs(e):
                            if x[0] == "ld":
                                c = memclass_of_addr(x[1])
                                if c in ms:
                                    bad = True
                        if not bad:
                            keep.append(e)
                    out = frozenset(keep)
            # must-free only: a callee that frees its argument on some path only is still treated as a release
            for e in fr:
                if e[0] in ("ld", "v", "arg", "call"):
                    out = out | {e}
        return out if out != st else None
    return tr


def touches_param(P, t, k):
    """t looks at what its parameter k points to itself"""
    F = P.F.get(t)
    if F is None:
        return False
    for i in F.instrs():
        if i.op == "load":
            e = P.expr(F, i.ops[0])
            while e[0] in ("fld", "idx"):
                e = e[1]
            if e == ("arg", k):
                return True
        elif i.op == "call" and P.callee(i) and P.callee(i) not in P.F:
            if any(is_local(a) and P.expr(F, a) == ("arg", k) for a in P.args(i)):
                return True
    return False


def dangling(P):
    """functions that return with a released pointer still stored where their caller can see it (a field of an
    argument that lives on, a global): what their callers do with that pointer is looked at with the body spliced in"""
    if hasattr(P, "_dangling"):
        return P._dangling
    A, S, Fr = prep(P)
    out = {}
    work = sorted(F.name for F in P.F.values() if any(
        i.op == "call" and any("F" in S.call_effects(i, k) for k in range(len(P.args(i)))) for i in F.instrs()))
    while work:
        f = work.pop(0)
        G = P.inline(f, lambda c: c in out)
        R = explore(P, G, [frozenset()], uaf_transfer(P, G, S, lambda *a: None))
        left = set()
        for _, st, _, _ in R.exits:
            for e in st:
                if e[0] != "ld":
                    continue
                if any(x in st for x in subexprs(e) if x != e):
                    continue                # the object that held it is gone too
                r = e
                while r[0] in ("ld", "fld", "idx"):
                    r = r[1]
                if r[0] in ("arg", "g"):
                    left.add(e)
        if left - out.get(f, set()):
            out[f] = out.get(f, set()) | left
            for c in P.callers(f):
                if c.fn.name not in out and c.fn.name not in work and len(list(c.fn.instrs())) < 150:
                    work.append(c.fn.name)
    P._dangling = out
    return out


def memclass_of_addr(a):
    from ..core import memclass_of
    return memclass_of(a)


@rule("C09", "path-sensitive typestate (live/released) over access paths, interprocedural release summaries, LLVM IR",
      "In every function that releases memory or a file handle directly or through a callee, all feasible paths are "
      "explored: after the release no path may read or write through the released pointer, pass it on, or release it "
      "again before it has been reassigned.",
      ["aliases are tracked as access paths within one function (two different paths to one object are not related)",
       "a helper that releases its argument on some of its paths is treated as releasing it"])
def c09(ck):
    P = ck.P
    A, S, Fr = prep(P)

    def judge_factory(acc):
        def judge(G):
            bad = []

            def report(ins, e, what):
                bad.append((ins, e, what))
            R = explore(P, G, [frozenset()], uaf_transfer(P, G, S, report))
            acc[G.name] = R.nodes
            return bad
        return judge
    seeds = []
    for F in P.F.values():
        n = 0
        for i in F.instrs():
            if i.op == "call" and any("F" in S.call_effects(i, k) for k in range(len(P.args(i)))):
                n += 1
        if n:
            seeds.append(F.name)
            ck.count("release_sites", n)
    acc = {}
    judge = judge_factory(acc)
    cond = conditional(P)
    dang = {d: {memclass_of_addr(e[1]) for e in es} for d, es in dangling(P).items()}
    spliced = {}
    for d in dang:
        for c in P.callers(d):
            g = c.fn
            reads = {P.memclass(g, i.ops[0]) for i in g.instrs() if i.op == "load"}
            if g.name != d and reads & dang[d]:
                spliced.setdefault(g.name, set()).add(d)
                ck.count("callers_of_partial_releasers")
    for f in sorted(set(seeds) | set(spliced)):
        want = set(cond) | spliced.get(f, set())
        for rnd in range(5):
            G = P.inline(f, lambda c: c in want)
            bad = judge(G)
            # a released pointer that is only passed on may never be touched: look into the callee
            more = set()
            for ins, e, what in bad:
                if ins.op == "call":
                    for t in P.targets(ins):
                        if t in A and any(is_local(v) and P.expr(G, v) == e and touches_param(P, t, k)
                                          for k, v in enumerate(P.args(ins))):
                            continue        # it reads what it copies; splicing it would also open the allocation itself
                        if t in P.F and P.callee(ins) and t not in want and t not in Fr and \
                                len(list(P.F[t].instrs())) < 800 and "F" not in str(sorted(
                                    "".join(S.call_effects(ins, k)) for k, v in enumerate(P.args(ins))
                                    if is_local(v) and P.expr(G, v) == e)):
                            more.add(t)
            if not more:
                break
            want |= more
        ck.count("functions")
        ck.count("states", acc[G.name])
        seen = set()
        for ins, e, what in bad:
            k = "%s:%s" % (f, pretty(e))
            if k in seen:
                continue
            seen.add(k)
            ck.violation(k, P.where(ins.origin or ins), "%s: after it was released, %s %s" % (f, pretty(e), what))
    ck.need("release_sites", 40)


def pretty(e):
    if e[0] == "fld":
        return "%s->%s" % (pretty(e[1]), e[3])
    if e[0] == "ld":
        return pretty(e[1])
    if e[0] == "idx":
        return "%s[%s]" % (pretty(e[1]), pretty(e[3]))
    if e[0] == "arg":
        return "arg%d" % e[1]
    if e[0] == "v":
        return str(e[1]).strip("%")
    if e[0] in ("c", "g"):
        return str(e[1])
    return e[0]


# ------------------------------------------------------------------------------------------ C08
def conditional_keepers(P):
    """(function, argument) pairs where the argument is taken over exactly if the function returns something: where it
    returns null, whatever held the argument has been released again and the caller still owns it"""
    if hasattr(P, "_ckeep"):
        return P._ckeep
    A, S, Fr = prep(P)
    out = set()
    for (f, i), eff in sorted(S.eff.items()):
        if "K" not in eff or "F" in eff or f not in P.F or P.F[f].retty != "ptr":
            continue
        F = P.F[f]
        a = ("arg", i)

        def tr(ins, st, ctx):
            if ins.op == "store" and is_local(ins.ops[0]) and ctx.resolve(P.expr(F, ins.ops[0])) == a:
                return "kept"
            if ins.op == "call":
                for k, v in enumerate(P.args(ins)):
                    if not is_local(v) or ins.optys[k] != "ptr":
                        continue
                    e, ef = ctx.resolve(P.expr(F, v)), S.call_effects(ins, k)
                    if e == a and "K" in ef:
                        return ("in", P.expr(F, ins.res)) if ins.res and ins.ty == "ptr" and P.callee(ins) else "kept"
                    if isinstance(st, tuple) and e == st[1] and "F" in ef:
                        return None if st is None else "released"
            return None
        R = explore(P, F, ["no"], tr, keep={a})
        zero = []
        for ret, st, node, facts in R.exits:
            v = ret.ops[0] if ret.ops else None
            v = facts.get(("alias", v), v)
            c = 0 if v in (0, "null") else facts.get(("=", P.expr(F, v))) if is_local(v) else None
            if c == 0:
                zero.append(st in ("no", "released") or isinstance(st, tuple) and facts.get(("=", st[1])) == 0)
        if zero and all(zero):
            out.add((f, i))
    P._ckeep = out
    return out


def leak_judge(P, F, A, S, Fr):
    """returns (R, list of (ins, token expr, node or None))"""
    sites = {}
    for i in F.instrs():
        if i.op == "call" and i.res and P.callee(i) in A:
            sites[i.res] = i
    if not sites:
        return None, [], 0
    tok = {P.expr(F, r): r for r in sites}
    bad = []
    kills = phi_kills(F)
    ckeep = conditional_keepers(P)

    def tr(ins, st, ctx):
        live = dict(st)
        for t, s in list(live.items()):
            if s[0] == "C":
                c = ctx.econst(s[1])
                if c == 0:
                    live[t] = "L"

        def base(v):
            if not is_local(v):
                return None
            e = ctx.resolve(P.expr(F, v))
            return e

        def lookup(e):
            if e is None:
                return None
            if e[0] == "v":
                for t in live:
                    if isinstance(t, tuple) and e[1] in t[1]:
                        return t
            return tok.get(e)

        def token(v):
            return lookup(base(v))

        def drop(t):
            live.pop(t, None)
            for c in [c for c, s in live.items() if s != "L" and s[0] == t]:
                drop(c)
        ks = kills.get(id(ins))
        if ks:
            for t in [t for t in live if isinstance(t, tuple) and t[1] & ks]:
                s = live[t]
                drop(t)
                if t[1] - ks:
                    live[(t[0], t[1] - ks)] = s
                elif s == "L":
                    bad.append((ins, P.expr(F, t[0]), None))
        if ins.op == "call":
            for k, a in enumerate(P.args(ins)):
                if ins.optys[k] != "ptr" or not is_local(a):
                    continue
                e = base(a)
                eff = S.call_effects(ins, k)
                t = lookup(e)
                if t is None:
                    # a field of a local object holding a token
                    for c, s in list(live.items()):
                        if s != "L" and e == ("ld", s[1]) and ("F" in eff or "K" in eff):
                            drop(c)
                    # address inside a token (e.g. &obj->field) kept by the callee
                    b = e
                    while b is not None and b[0] in ("fld", "idx"):
                        b = b[1]
                    if tok.get(b) and "K" in eff:
                        drop(tok[b])
                    continue
                if t not in live:
                    continue
                if "F" in eff:
                    plain = P.callee(ins) in Fr
                    kids = [c for c, s in live.items() if s != "L" and s[0] == t]
                    if plain:
                        for c in kids:
                            live[c] = "L"
                        live.pop(t, None)
                    else:
                        drop(t)
                elif ins.res and P.callee(ins) and (P.callee(ins), k) in ckeep:
                    live[t] = ("C", P.expr(F, ins.res))
                elif "K" in eff or "R" in eff:
                    drop(t)
            if ins.res in sites:
                if live.get(ins.res) == "L" and ctx.econst(P.expr(F, ins.res)) != 0:
                    # a loop variable may still hold the previous object
                    ph = frozenset(k[1] for k, v in ctx.facts.items() if k[0] == "alias" and v == ins.res)
                    if ph:
                        live[(ins.res, ph)] = live.pop(ins.res)
                    else:
                        bad.append((ins, P.expr(F, ins.res), None))
                drop(ins.res)
                live[ins.res] = "L"
        elif ins.op == "store" and is_local(ins.ops[0]):
            t = token(ins.ops[0])
            if t is not None and t in live:
                a = ctx.resolve(P.expr(F, ins.ops[1]))
                b = a
                while b[0] in ("fld", "idx"):
                    b = b[1]
                b = ctx.resolve(b)
                o = tok.get(b)
                if o is not None and o in live and o != t and a[0] == "fld":
                    live[t] = (o, ("fld", b) + tuple(a[2:]) if a[1] != b else a)
                elif o is not None and o in live and o != t:
                    drop(t)           # element of a local array: owned by the array
                else:
                    drop(t)
        elif ins.op == "ret":
            if ins.ops and is_local(ins.ops[0]):
                t = token(ins.ops[0])
                if t:
                    drop(t)
                else:
                    e = base(ins.ops[0])
                    while e is not None and e[0] in ("fld", "idx"):
                        e = e[1]
                    if lookup(e):
                        drop(lookup(e))
        elif ins.op in ("ptrtoint",) and is_local(ins.ops[0]):
            t = token(ins.ops[0])
            if t:
                pass
        n = frozenset(live.items())
        return n if n != st else None
    told = {P.expr(F, i.res) for i in F.instrs() if i.op == "call" and i.res and any(
        (P.callee(i), k) in ckeep for k in range(len(P.args(i))))}
    R = explore(P, F, [frozenset()], tr, keep=set(tok) | told)
    for ins, st, node, facts in R.exits:
        for t, s in st:
            e = P.expr(F, t[0] if isinstance(t, tuple) else t)
            if s == "L" or True:
                if s != "L":
                    # child of a local object that is itself still live is reported with its owner
                    continue
                if facts.get(("=", e)) == 0:
                    continue
                bad.append((ins, e, node))
    return R, bad, len(sites)


@rule("C08", "path-sensitive ownership typestate (owned/transferred/released) over LLVM IR with effect summaries",
      "For every call that returns fresh memory or an open file, all feasible paths of the calling function are "
      "explored: on each return path the object must have been released, returned, stored in a longer-lived object, "
      "or handed to a callee that keeps or releases it (error exits that end the process excepted); objects stored in "
      "a local container are tracked until the container is released.",
      ["external functions have the effects listed in vf/flow.py"])
def c08(ck):
    P = ck.P
    A, S, Fr = prep(P)
    cond = conditional(P)
    for f in sorted(P.F):
        F = P.inline(f, lambda c: c in cond)
        R, bad, n = leak_judge(P, F, A, S, Fr)
        if not n:
            continue
        ck.count("functions")
        ck.count("allocation_sites", n)
        ck.count("states", R.nodes)
        ck.count("return_states", len(R.exits))
        seen = set()
        for ins, e, node in bad:
            site = next(i for i in F.instrs() if i.res and P.expr(F, i.res) == e)
            k = "%s:%s" % (f, (P.callee(site)))
            if (k, site.res) in seen:
                continue
            seen.add((k, site.res))
            ck.violation(k, P.where(site.origin or site), "%s: the object obtained from %s is neither released nor handed over on a "
                         "path to %s" % (f, P.callee(site), P.where(ins)), path_of(P, F, R, node) if node else None)
    element_loops(ck, P, S, "local")
    ck.need("allocation_sites", 200)


# ------------------------------------------------------------------------------------------ C07
def strip_addr(e):
    while e[0] in ("fld", "idx"):
        e = e[1]
    return e


def owned_fields(P):
    """(S, f) -> list of (function, store) that put fresh memory / an open file there and nowhere else"""
    A, S, Fr = prep(P)
    own, elem = {}, {}
    for F in P.F.values():
        rets = [i for i in F.instrs() if i.op == "ret" and i.ops]
        for i in F.instrs():
            if i.op != "store" or not is_local(i.ops[0]):
                continue
            src = fresh_defs(F, i.ops[0])
            if not src or not any(d == "null" or P.callee(d) in A for d in src):
                continue
            if not any(d != "null" and P.callee(d) in A for d in src) or any(d != "null" and P.callee(d) not in A for d in src):
                continue
            if any(fresh_defs(F, r.ops[0]) and (set(fresh_defs(F, r.ops[0])) & set(src) - {"null"}) for r in rets):
                continue
            a = P.expr(F, i.ops[1])
            if a[0] == "fld":
                own.setdefault((a[2], a[3]), []).append((F, i))
            elif a[0] == "idx" and a[1][0] == "ld" and a[1][1][0] == "fld":
                elem.setdefault((a[1][1][2], a[1][1][3]), []).append((F, i))
    return own, elem


def fresh_defs(F, v, seen=None):
    """list of defining call instructions / 'null' of a pointer value (None if something else)"""
    seen = seen if seen is not None else set()
    if v in ("null", 0):
        return ["null"]
    if not is_local(v):
        return None
    if v in seen:
        return []
    seen.add(v)
    d = F.defs.get(v)
    if d is None:
        return None
    if d.op in ("phi", "select"):
        r = []
        for o in (d.ops if d.op == "phi" else d.ops[1:]):
            s = fresh_defs(F, o, seen)
            if s is None:
                return None
            r += s
        return r
    if d.op == "call" and d.x["callee"].startswith("@"):
        return [d]
    return None


def part_releasers(P, S):
    """internal helpers that release something reached through an argument but not the argument itself"""
    out = set()
    ch = True
    while ch:
        ch = False
        for F in P.F.values():
            if F.name in out or not liftable(P, F.name) or F.retty != "void":
                continue
            hit = None
            for i in F.instrs():
                if i.op != "call":
                    continue
                for k, a in enumerate(P.args(i)):
                    if not is_local(a) or i.optys[k] != "ptr":
                        continue
                    e = P.expr(F, a)
                    if strip_all(e)[0] != "arg":
                        continue
                    if e[0] == "ld" and "F" in S.call_effects(i, k):
                        hit = hit if hit is False else True
                    elif P.callee(i) in out:
                        hit = hit if hit is False else True
                    elif e[0] == "arg" and "F" in S.call_effects(i, k):
                        hit = False
            if hit and not any(i.op == "store" and i.optys[0] == "ptr" and i.ops[0] not in (0, "null") for i in F.instrs()):
                out.add(F.name)
                ch = True
    return out


def release_arg(P, F, S, ins):
    out = []
    for k, a in enumerate(P.args(ins)):
        if is_local(a) and ins.optys[k] == "ptr" and "F" in S.call_effects(ins, k):
            out.append((k, P.expr(F, a)))
    return out


def field_type_struct(P, St, f):
    """struct type that field St.f points to (None if not a struct pointer)"""
    return P.di.field_struct(St, f) if hasattr(P.di, "field_struct") else None


@rule("C07", "ownership inference + path-sensitive release checking of destructors on LLVM IR",
      "Ownership is inferred: a struct field that receives fresh memory or an open file which is stored nowhere else "
      "is owned. For every owned field some destructor must release it, on every one of its return paths unless the "
      "field is known to be null there (or a flag excludes it that the constructor sets consistently), with all "
      "elements of owned pointer arrays; every construction must register the destructor; and an owned field must not "
      "be overwritten while it may hold an object.",
      ["objects of one struct type are released by the union of the destructors found for that type"])
def c07(ck):
    P = ck.P
    A, S, Fr = prep(P)
    own, elem = owned_fields(P)
    # releasing functions per (S,f)
    rel, G = {}, {}
    part = part_releasers(P, S)
    for f0 in sorted(P.F):
        if f0 in part:
            continue
        F = P.F[f0]
        if any(i.op == "call" and P.callee(i) in part for i in F.instrs()):
            F = P.inline(f0, lambda c: c in part)
        G[f0] = F
        for i in F.instrs():
            if i.op != "call":
                continue
            for k, e in release_arg(P, F, S, i):
                if e[0] == "ld" and e[1][0] == "fld" and strip_all(e[1][1])[0] == "arg":
                    x = strip_all(e[1][1])
                    # a destructor releases the object its argument points to, or is called through a slot that does
                    if F.retty == "void" and (f0 in P.address_taken or "F" in S.get(f0, x[1])):
                        rel.setdefault((e[1][2], e[1][3]), {}).setdefault(f0, []).append((i, e))
                elif e[0] == "ld" and e[1][0] == "idx" and e[1][1][0] == "ld" and e[1][1][1][0] == "fld" and \
                        strip_all(e[1][1][1][1])[0] == "arg":
                    key = (e[1][1][1][2], e[1][1][1][3])
                    rel.setdefault(("elem",) + key, {}).setdefault(f0, []).append((i, e))
    for key in rel:
        if len(key) == 2:
            own.setdefault(key, [])
    for key, stores in sorted(own.items()):
        St, f = key
        ck.count("owned_fields")
        ck.sample("%s.%s" % key)
        if key not in rel:
            # handed to a releasing helper via the whole object? (destructor reads the field itself)
            ck.violation("%s.%s:never" % key, P.where(stores[0][1]),
                         "%s stores a fresh object in %s.%s, but no destructor releases that field" %
                         (stores[0][0].name, St, f))
            continue
        targets = {}
        for d, sites in sorted(rel[key].items()):
            for _, e in sites:
                targets.setdefault((d, e), None)
        covers = {(d, e[1][1]) for d, e in targets if e[1][1][0] == "arg"}
        ch = bool(covers)
        while ch:
            ch = False
            for T in P.F.values():
                for i in T.instrs():
                    if i.op != "call":
                        continue
                    for k, a in enumerate(P.args(i)):
                        if not is_local(a) or i.optys[k] != "ptr":
                            continue
                        x = P.expr(T, a)
                        if x[0] == "arg" and (T.name, x) not in covers and P.callee(i) and \
                                (P.callee(i), ("arg", k)) in covers and "F" in S.call_effects(i, k):
                            covers.add((T.name, x))
                            if T.retty == "void":
                                targets[(T.name, ("ld", ("fld", x, St, f)))] = None
                            ch = True
        for (d, e) in sorted(targets, key=str):
            judge_release(ck, P, G.get(d) or P.F[d], S, Fr, St, f, e, stores, covers)
    shallow(ck, P, S, Fr, own, rel, G)
    element_loops(ck, P, S, "arg")
    payloads(ck, P, S)
    row_counts(ck, P, S, own)
    for key, stores in sorted(elem.items()):
        ck.count("owned_arrays")
        k = ("elem",) + key
        if key not in own and key not in rel and k not in rel:
            continue          # array not owned by that struct
        if k not in rel:
            # matrix helpers free all rows: released through a callee that frees elements
            if key in rel and all(P.callee(i) not in Fr for ss in rel[key].values() for i, _ in ss):
                continue
            ck.violation("%s.%s:elements" % key, P.where(stores[0][1]), "%s stores fresh objects in the array %s.%s, but no "
                         "destructor releases the elements" % ((stores[0][0].name,) + key))
            continue
        for d, sites in rel[k].items():
            F = G[d]
            ok = False
            for i, e in sites:
                for L in loops(F, P):
                    if i.block.name not in L.body:
                        continue
                    for iv in L.ivs:
                        if iv["step"] == 1 and iv["init"] == ("c", 0) and e[1][3] in (("v", iv["phi"]), P.expr(F, iv["phi"])):
                            ts = [t for t in iv.get("tests", []) if t[1] in ("ult", "slt", "ne") and t[2][0] == "ld" and not t[3]]
                            if ts or sentinel(P, F, L, e):
                                ok = True
            ck.count("element_loops")
            if not ok:
                ck.violation("%s.%s:elemloop" % key, P.where(sites[0][0]),
                             "%s does not release every element of %s.%s" % ((d,) + key))
    # construction registers the destructor
    bystruct = {}
    for key in own:
        bystruct.setdefault(key[0], []).append(key)
    for St, keys in sorted(bystruct.items()):
        Ds = {d for k in keys for d in rel.get(k, {})}
        if not Ds or not Ds <= P.address_taken:
            continue
        for F in {s[0].name: s[0] for k in keys for s in own[k]}.values():
            if not any(i.op == "store" and P.expr(F, i.ops[1])[0] == "fld" and P.expr(F, i.ops[1])[2] == St and
                       is_fresh_obj(P, F, P.expr(F, i.ops[1])[1], A) for i in F.instrs()):
                continue
            ck.count("constructions")
            todo, seen, hit = [F.name], set(), False
            while todo and not hit:
                g = todo.pop()
                if g in seen:
                    continue
                seen.add(g)
                for i in P.F[g].instrs():
                    for o in i.ops:
                        if isinstance(o, str) and o.startswith("@") and o[1:].strip('"') in Ds:
                            hit = True
                if not hit and liftable(P, g):
                    todo += [c.fn.name for c in P.callers(g)]
            if not hit:
                ck.violation("%s:%s:register" % (F.name, St), P.where(next(iter(F.instrs()))),
                             "%s creates a %s without registering its destructor" % (F.name, St))
    # overwriting
    overwrites(ck, P, S, A, own, rel)
    ck.need("owned_fields", 40)


def shallow(ck, P, S, Fr, own, rel, G):
    """a plain free of an object whose fields own something must come with the release of these fields"""
    for f0, F in sorted(G.items()):
        types = None
        for i in F.instrs():
            if i.op != "call" or P.callee(i) not in Fr or not P.args(i) or not is_local(P.args(i)[0]):
                continue
            e = P.expr(F, P.args(i)[0])
            if types is None:
                types = {}
                for g in F.instrs():
                    if g.op == "getelementptr" and g.x["sty"].startswith("%struct") and len(g.ops) >= 3:
                        types.setdefault(P.expr(F, g.ops[0]), set()).add(g.x["sty"][1:])
            for St in types.get(e, ()):
                for key in sorted(own):
                    if key[0] != St or key not in rel:
                        continue
                    ck.count("releases_of_owners")
                    want = ("ld", ("fld", e, St, key[1]))
                    ok = False
                    for j in F.instrs():
                        if j.op != "call" or j is i:
                            continue
                        if any(x == want for _, x in release_arg(P, F, S, j)):
                            ok = True
                        for k, a in enumerate(P.args(j)):
                            if is_local(a) and j.optys[k] == "ptr" and P.expr(F, a) == e and \
                                    any(t in rel[key] for t in P.targets(j)):
                                ok = True
                    src = fresh_defs(F, P.args(i)[0])
                    if not ok and src and not any(j.op == "store" and P.expr(F, j.ops[1]) == want[1] and
                                                  j.ops[0] not in (0, "null") for j in F.instrs()):
                        ok = True        # created here, the field was never filled
                    if not ok:
                        ck.violation("%s:%s.%s:shallow" % ((f0,) + key), P.where(i.origin or i),
                                     "%s frees an object whose %s.%s owns memory without releasing it" % ((f0,) + key))


def strip_all(e):
    while e[0] in ("fld", "idx", "ld"):
        e = e[1]
    return e


def is_fresh_obj(P, F, b, A):
    b = strip_addr(b)
    for i in F.instrs():
        if i.op == "call" and i.res and P.callee(i) in A and P.expr(F, i.res) == b:
            return True
    return False


def sentinel(P, F, L, e):
    """loop runs until the element itself is null"""
    for b in L.body:
        t = F.blocks[b].term
        if t.op == "br" and "c" in t.x and is_local(t.ops[0]):
            d = F.defs.get(t.ops[0])
            if d is not None and d.op == "icmp" and P.expr(F, d.ops[0]) == e and d.ops[1] in ("null", 0):
                return True
    return False


def row_functions(P, S):
    """row allocators {function: parameter with the number of rows} and row releasers {function: (matrix, rows) parameters}"""
    al, fr = {}, {}
    for n, F in P.F.items():
        for i in F.instrs():
            if i.op == "call":
                hit = [(e, True) for _, e in release_arg(P, F, S, i)]
            elif i.op == "store" and F.retty == "ptr" and is_local(i.ops[0]):
                d = F.defs.get(i.ops[0])
                hit = [(("ld", P.expr(F, i.ops[1])), False)] if d is not None and d.op == "call" and P.callee(d) in prep(P)[0] else []
            else:
                continue
            for e, rel in hit:
                if e[0] != "ld" or e[1][0] != "idx":
                    continue
                base = e[1][1]
                for L in loops(F, P):
                    if i.block.name not in L.body:
                        continue
                    for iv in L.ivs:
                        if e[1][3] not in (("v", iv["phi"]), P.expr(F, iv["phi"])) or iv["init"] != ("c", 0) or iv["step"] != 1:
                            continue
                        for t in iv.get("tests") or []:
                            if t[2][0] != "arg" or t[3]:
                                continue
                            if rel and base[0] == "arg":
                                fr[n] = (base[1], t[2][1])
                            elif not rel and any(r.op == "ret" and is_local(r.ops[0]) and P.expr(F, r.ops[0]) == base
                                                 for r in F.instrs()):
                                al[n] = t[2][1]
    # functions that hand on what a row allocator made
    for n, F in P.F.items():
        if n not in al and F.retty == "ptr":
            for i in F.instrs():
                if i.op == "call" and P.callee(i) in al and any(
                        r.op == "ret" and r.ops and r.ops[0] == i.res for r in F.instrs()):
                    e = P.expr(F, P.args(i)[al[P.callee(i)]])
                    if e[0] == "arg":
                        al[n] = e[1]
    return al, fr


DIMS = {"number_of_variables", "dimension"}


def row_counts(ck, P, S, own):
    """a matrix is released with the number of rows it was made with"""
    al, fr = row_functions(P, S)
    ck.count("row allocators", len(al))
    ck.count("row releasers", len(fr))

    def val(F, e):
        """the value a field load denotes when the function stores that field exactly once"""
        if e[0] == "ld" and e[1][0] == "fld":
            vs = {P.expr(F, i.ops[0]) for i in F.instrs() if i.op == "store" and P.expr(F, i.ops[1]) == e[1]}
            if len(vs) == 1:
                return val(F, vs.pop())
        return e
    for n, F in sorted(P.F.items()):
        for i in F.instrs():
            if i.op != "call" or P.callee(i) not in fr:
                continue
            m, k = fr[P.callee(i)]
            a = P.args(i)
            e, c = P.expr(F, a[m]), P.expr(F, a[k]) if is_local(a[k]) else ("c", a[k])
            d = F.defs.get(a[m]) if is_local(a[m]) else None
            if d is not None and d.op == "call" and P.callee(d) in al:
                ck.count("matrix releases")
                x = P.args(d)[al[P.callee(d)]]
                x = P.expr(F, x) if is_local(x) else ("c", x)
                if val(F, x) != val(F, c) and x[0] in ("arg", "c", "ld") and c[0] in ("arg", "c", "ld"):
                    ck.violation("%s:rows" % n, P.where(i), "%s releases the rows of a matrix with a number (%s) other than the one "
                                 "it was made with (%s)" % (n, pretty(c), pretty(x)))
            elif e[0] == "ld" and e[1][0] == "fld" and c[0] == "ld" and c[1][0] == "fld":
                key, f = (e[1][2], e[1][3]), c[1][3]
                for C in P.F.values():
                    for st in C.instrs():
                        if st.op != "store" or not is_local(st.ops[0]):
                            continue
                        t = P.expr(C, st.ops[1])
                        d = C.defs.get(st.ops[0])
                        if t[0] != "fld" or (t[2], t[3]) != key or d is None or d.op != "call" or P.callee(d) not in al:
                            continue
                        x = P.args(d)[al[P.callee(d)]]
                        x = val(C, P.expr(C, x)) if is_local(x) else ("c", x)
                        ck.count("matrix releases")
                        stored = {val(C, P.expr(C, j.ops[0])) for j in C.instrs() if j.op == "store" and
                                  (lambda q: q[0] == "fld" and q[2] == c[1][2] and q[3] == f)(P.expr(C, j.ops[1]))}
                        wrong = x not in stored if stored and x[0] in ("arg", "c", "ld") else \
                            x[0] == "ld" and x[1][0] == "fld" and x[1][3] != f and (x[1][3] in DIMS) != (f in DIMS)
                        if wrong:
                            ck.violation("%s:rows:%s" % (n, key[1]), P.where(i), "%s releases %s.%s with %s rows, but %s made it with "
                                         "%s" % (n, key[0], key[1], pretty(c), C.name, pretty(x)))


def payloads(ck, P, S):
    """an object that comes with its own release function: the function is called before the memory goes, unless there
    is none"""
    for n, F in sorted(P.F.items()):
        pairs = {}
        for i in F.instrs():
            if i.op == "call" and not P.callee(i) and F.retty == "void":
                s = callee_slot(P, F, i)
                t = P.expr(F, i.ops[-1])
                if not s or t[0] != "ld" or t[1][0] != "fld":
                    continue
                for k, a in enumerate(P.args(i)):
                    e = P.expr(F, a) if is_local(a) and i.optys[k] == "ptr" else ("c", 0)
                    if e[0] == "ld" and e[1][0] == "fld" and e[1][1] == t[1][1]:
                        pairs[e] = t
        for e, t in pairs.items():
            if not any(e == x for i in F.instrs() if i.op == "call" and P.callee(i) for _, x in release_arg(P, F, S, i)):
                continue
            bad = []

            def tr(ins, st, ctx):
                if ins.op != "call":
                    return None
                if not P.callee(ins) and ctx.resolve(P.expr(F, ins.ops[-1])) == t:
                    return True
                if P.callee(ins) and not st and any(ctx.resolve(x) == e for _, x in release_arg(P, F, S, ins)) and \
                        ctx.econst(t) != 0 and ctx.econst(e) != 0:
                    bad.append(ins)
                return None
            explore(P, F, [False], tr, keep={e, t})
            ck.count("release functions of payloads")
            for ins in bad[:1]:
                ck.violation("%s:payload" % n, P.where(ins), "%s can release %s without having called %s" % (n, pretty(e), pretty(t)))


def element_loops(ck, P, S, which):
    """a loop that releases the elements of an array releases every one of them: it starts at the first, and each round
    releases its element unless that is null"""
    for n, F in sorted(P.F.items()):
        sites = []
        for i in F.instrs():
            if i.op != "call":
                continue
            for k, e in release_arg(P, F, S, i):
                if e[0] == "ld" and e[1][0] == "idx":
                    r = e
                    while r[0] in ("ld", "idx", "fld"):
                        r = r[1]
                    if (r[0] == "arg") == (which == "arg"):
                        sites.append((i, e))
        for i, e in sites:
            for L in loops(F, P):
                if i.block.name not in L.body:
                    continue
                for iv in L.ivs:
                    if e[1][3] not in (("v", iv["phi"]), P.expr(F, iv["phi"])):
                        continue
                    ck.count("loops over owned elements")
                    if iv["step"] == 1 and iv["init"][0] == "c" and iv["init"] != ("c", 0):
                        ck.violation("%s:first" % n, P.where(i), "%s releases the elements of %s from number %s on only" % (
                            n, pretty(e[1][1]), iv["init"][1]))
                    done = {j.block.name for j, x in sites if x == e}
                    bad = skipped_round(P, F, L, e, done)
                    if bad:
                        ck.violation("%s:round" % n, P.where(i), "%s does not release the element of %s in every round of "
                                     "the loop (%s)" % (n, pretty(e[1][1]), bad))


def skipped_round(P, F, L, e, done):
    """a round of loop L (from its head back to its head) that neither releases e nor finds it null"""
    st, seen = [L.header], set()
    while st:
        b = st.pop()
        if b in seen or b in done:
            continue
        seen.add(b)
        t = F.blocks[b].term
        succ = list(F.blocks[b].succs)
        if t.op == "br" and "c" in t.x and is_local(t.ops[0]):
            d = F.defs.get(t.ops[0])
            if d is not None and d.op == "icmp" and d.ops[1] in ("null", 0) and P.expr(F, d.ops[0]) == e:
                isnull = t.x["t"] if d.x["pred"] == "eq" else t.x["f"]
                succ = [x for x in succ if x != isnull]
        for x in succ:
            if x == L.header:
                return P.where(t)
            if x in L.body:
                st.append(x)
    return None


def delegating(P, S, Fr, F, ins, base):
    """call that hands the whole object (an argument of F) to another destructor: its targets, or None"""
    if ins.op != "call" or P.callee(ins) in Fr:
        return None
    for k, a in enumerate(P.args(ins)):
        if is_local(a) and ins.optys[k] == "ptr" and P.expr(F, a) == base and "F" in S.call_effects(ins, k):
            return [(t, k) for t in P.targets(ins)]
    return None


def judge_release(ck, P, F, S, Fr, St, f, e, stores, covers):
    base = strip_all(e)
    whole = e[1][1]
    twice, lost = [], []
    pre = list(prefixes(e))

    reach, todo = set(), [F.name]
    while todo:
        g = todo.pop()
        if g in reach or g not in P.F:
            continue
        reach.add(g)
        todo += [t for i in P.F[g].instrs() if i.op == "call" for t in P.targets(i)]
    written = set()
    for g in reach:
        for i in P.F[g].instrs():
            if i.op == "store":
                a = P.expr(P.F[g], i.ops[1])
                if a[0] == "fld":
                    written.add((a[2], a[3]))
    flags = set()
    for i in F.instrs():
        if i.op == "load":
            a = P.expr(F, i.ops[0])
            if a[0] == "fld" and a[1] == whole and a[2] == St and (a[2], a[3]) not in written and a[3] != f:
                flags.add(("ld", a))

    def step(ins, st, ctx):
        if st == 0 and (ctx.econst(e) == 0 or any(ctx.econst(x) == 0 for x in pre)):
            st = 3
        if ins.op == "call":
            d = delegating(P, S, Fr, F, ins, whole) if whole[0] == "arg" else None
            if d and all((t, ("arg", k)) in covers for t, k in d):
                return 1 if st == 0 else st
            for k, a in enumerate(P.args(ins)):
                if is_local(a) and ins.optys[k] == "ptr" and "F" in S.call_effects(ins, k):
                    x = ctx.resolve(P.expr(F, a))
                    if x == e:
                        if st == 1:
                            twice.append(ins)
                        return 1
        elif ins.op == "store" and P.expr(F, ins.ops[1]) == e[1]:
            return 4 if st == 0 else 2
        return st

    def tr(ins, st, ctx):
        n, fl = st
        m = step(ins, n, ctx)
        if m == 0 and flags:
            add = set()
            for x in flags:
                c = ctx.econst(x)
                if c is not None:
                    add.add((x[1][3], "is", c))
                for v in ctx.facts.get(("ne", x), ()):
                    add.add((x[1][3], "not", v))
            if not add <= fl:
                fl = fl | add
        elif m:
            fl = frozenset()
        return (m, fl) if (m, fl) != st else None
    R = explore(P, F, [(0, frozenset())], tr, keep={base, e} | flags | set(pre))
    ck.count("destructor_paths", len(R.exits))
    for ins in twice:
        ck.violation("%s:%s.%s:twice" % (F.name, St, f), P.where(ins), "%s releases %s.%s twice" % (F.name, St, f))
    for ins, (st, fl), node, facts in R.exits:
        if st in (1, 2, 3):
            continue
        if st == 0 and (facts.get(("=", e)) == 0 or any(facts.get(("=", x)) == 0 for x in prefixes(e))):
            continue
        if st == 0 and fl and stores and all(constructor_excludes(P, G, i, St, fl) for G, i in stores):
            ck.count("flag_exclusions")
            continue
        ck.violation("%s:%s.%s:path" % (F.name, St, f), P.where(ins),
                     "%s can return without having released %s.%s" % (F.name, St, f), path_of(P, F, R, node))


def prefixes(e):
    while e[0] in ("fld", "idx", "ld"):
        e = e[1]
        if e[0] in ("ld", "arg", "v"):
            yield e


def constructor_excludes(P, G, store, St, fl):
    """in the constructor G, the fresh store only happens when a flag differs from what the destructor's path found"""
    obj = P.expr(G, store.ops[1])[1]
    hit = []

    def tr(ins, st, ctx):
        if ins is store:
            ok = False
            for g, how, v in fl:
                k = ("ld", ("fld", obj, St, g))
                c = ctx.econst(k)
                ne = ctx.facts.get(("ne", k), ())
                if how == "is" and ((c is not None and c != v) or v in ne):
                    ok = True
                elif how == "not" and c is not None and c == v:
                    ok = True
            hit.append(ok)
    keep = {("ld", ("fld", obj, St, g)) for g, _, _ in fl}
    explore(P, G, [0], tr, keep=keep)
    return bool(hit) and all(hit)


def overwrites(ck, P, S, A, own, rel):
    """a fresh object stored into an owned field of an object that was built elsewhere must not lose the old one"""
    ctor_nonnull = {}

    def may_hold(c, key, seen=None):
        """constructor c may leave a non-null object in the field"""
        seen = seen or set()
        if (c, key) in ctor_nonnull:
            return ctor_nonnull[(c, key)]
        if c in seen or c not in P.F:
            return False
        seen.add(c)
        r = False
        for i in P.F[c].instrs():
            if i.op == "store":
                a = P.expr(P.F[c], i.ops[1])
                if a[0] == "fld" and (a[2], a[3]) == key and i.ops[0] not in (0, "null"):
                    r = True
            elif i.op == "call" and P.callee(i) in P.F and i.ty == "ptr":
                r = r or may_hold(P.callee(i), key, seen)
        ctor_nonnull[(c, key)] = r
        return r
    seeds = set()
    for key, stores in own.items():
        for F, i in stores:
            seeds.add(F.name)
            ck.count("owned_field_updates")

    def judge(G):
        bad = []
        for i in G.instrs():
            if i.op != "store" or not is_local(i.ops[0]):
                continue
            a = P.expr(G, i.ops[1])
            if a[0] != "fld" or (a[2], a[3]) not in own:
                continue
            src0 = fresh_defs(G, i.ops[0])
            if not src0 or not any(d != "null" and P.callee(d) in A for d in src0):
                continue
            key = (a[2], a[3])
            b = strip_all(a[1])
            src = None
            if b[0] not in ("arg", "ga", "g"):
                for j in G.instrs():
                    if j.op == "call" and j.res and P.expr(G, j.res) == a[1]:
                        src = j
                if src is None or P.callee(src) not in P.F or not may_hold(P.callee(src), key):
                    holds = 1        # nothing there unless this function put it there
                else:
                    holds = 0
            else:
                holds = 0
            cell = ("ld", a)
            state = []

            def tr(ins, st, ctx):
                if ins is src:
                    return holds
                if ins is i:
                    if st == 0 and ctx.econst(cell) != 0:
                        state.append(ins)
                    return 0
                if ins.op == "call":
                    for k, v in enumerate(P.args(ins)):
                        if is_local(v) and ins.optys[k] == "ptr" and S.call_effects(ins, k).keys() & {"F", "K"}:
                            if ctx.resolve(P.expr(G, v)) == cell:
                                return 1
                if ins.op == "store" and P.expr(G, ins.ops[1]) == a:
                    return 1 if ins.ops[0] in (0, "null") else 0
                if ins.op in ("load", "call") and ins.res and any(x == ("v", ins.res) for x in subexprs(a)):
                    return holds     # a new object
            explore(P, G, [holds], tr, keep={cell})
            if state:
                bad.append((key, i))
        return bad
    for f, (G, bad) in lift(P, sorted(seeds), judge).items():
        for key, i in bad:
            ck.violation("%s:%s.%s:overwrite" % ((f,) + key), P.where(i.origin or i),
                         "%s overwrites %s.%s, which may still hold an object, without releasing it" % ((f,) + key))
