"""C27: which functions, dimensions and instances a suite holds: lists, ranges and filters."""
from ..check import rule
from ..core import is_local, subexprs
from ..esp import explore, Known
from ..util import loops, must_pass
from .indices import linear

SU = "struct.coco_suite_s"
LISTS = ("functions", "dimensions", "instances")


def member(e):
    """the suite's list whose pointer this is (load of the field)"""
    if e[0] == "ld" and e[1][0] == "fld" and e[1][2] == SU and e[1][3] in LISTS:
        return e[1][3]


def number(e):
    if e[0] == "ld" and e[1][0] == "fld" and e[1][2] == SU and e[1][3].startswith("number_of_"):
        return e[1][3][len("number_of_"):]


def ex(P, F, o):
    return P.expr(F, o) if is_local(o) else ("c", o) if isinstance(o, int) else ("x", o)


def holders(P):
    """{function: {argument: [lists]}} of the functions that are handed one of the suite's lists"""
    out = {}
    for F in P.F.values():
        for i in F.instrs():
            c = P.callee(i) if i.op == "call" else None
            if c not in P.F:
                continue
            for k, o in enumerate(P.args(i)):
                m = member(ex(P, F, o)) if is_local(o) else None
                if m:
                    out.setdefault(c, {}).setdefault(k, []).append((m, i))
    return out


def outer_of(F, P, blk):
    return sorted((L for L in loops(F, P) if blk in L.body), key=lambda L: -len(L.body))


def tests_of(P, F, L, iv):
    """(block, predicate that keeps the loop going, bound, k): tests of the variable + k against a bound; k is relative
    to the variable's value in the pass the test belongs to (on the next value: 'next')"""
    for b in sorted(L.body):
        t = F.blocks[b].term
        if t.op != "br" or "c" not in t.x or not is_local(t.ops[0]):
            continue
        ins = [t.x["t"] in L.body, t.x["f"] in L.body]
        d = F.defs.get(t.ops[0])
        if ins[0] == ins[1] or d is None or d.op != "icmp":
            continue
        p = d.x["pred"]
        a, c = ex(P, F, d.ops[0]), ex(P, F, d.ops[1])
        k = linear(a, ("v", iv["phi"]))
        if k is None:
            a, c = c, a
            k = linear(a, ("v", iv["phi"]))
            p = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge",
                 "sge": "sle"}.get(p, p)
        if k is None:
            continue
        if not ins[0]:
            p = {"ult": "uge", "ugt": "ule", "ule": "ugt", "uge": "ult", "slt": "sge", "sgt": "sle",
                 "sle": "sgt", "sge": "slt", "eq": "ne", "ne": "eq"}[p]
        bottom = b in L.latches or any(s in L.body and s == L.header for s in F.blocks[b].succs)
        yield b, p, c, k, bottom


def span(L, off, n, P=None):
    """why the offsets `off` do not run over 0..n-1 (None: they do; "" : not recognised)"""
    for iv in L.ivs:
        for cand in (iv["phi"], iv["next"]):
            d = linear(off, ("v", cand))
            if d is None:
                continue
            if cand == iv["next"]:
                d += iv["step"]
            if iv["step"] == 1 and iv["init"][0] == "c":
                if iv["init"][1] + d != 0:
                    return "starts with item %d" % (iv["init"][1] + d)
                for b, pred, bound, k, bottom in tests_of(P, L.F, L, iv):
                    t = linear(bound, n)
                    if t is None or pred not in ("ult", "slt", "ule", "sle", "ne"):
                        continue
                    # the last pass, relative to n (a test at the bottom is that of the next pass)
                    last = t + (0 if pred in ("ule", "sle") else -1) + d - k + (1 if bottom else 0)
                    if last != -1:
                        return "ends %s the last item" % ("before" if last < -1 else "after")
                    return None
                return ""
            if iv["step"] == -1:
                t = linear(iv["init"], n)
                for b, pred, bound, on_next in iv.get("tests", []):
                    if t is None or bound[0] != "c" or on_next or pred not in ("ugt", "sgt", "ne", "uge", "sge"):
                        continue
                    if t + d != -1 and t + d != 0:
                        return "starts %d off the last item" % (t + d + 1)
                    low = bound[1] + (1 if pred in ("ugt", "sgt", "ne") else 0) + d
                    if t + d == -1 and low != 0:
                        return "ends with item %d" % low
                    return None
                return ""
    return ""


# ---- filters ----------------------------------------------------------------------------------------------------
def filters(ck, P):
    """an item is dropped exactly if it is not in the given list; returns {function: (list argument, how)}"""
    H = holders(P)
    found = {}
    for F in P.F.values():
        cand = []
        for i in F.instrs():
            if i.op != "store" or i.ops[0] != 0 or i.optys[0] != "i64":
                continue
            a = P.expr(F, i.ops[1])
            if a[0] != "idx":
                continue
            base = a[1]
            if member(base):
                n = ("ld", ("fld", base[1][1], SU, "number_of_" + member(base)))
                cand.append((i, a, base, n))
            elif base[0] == "arg" and base[1] in H.get(F.name, {}):
                ns = set()
                for m, call in H[F.name][base[1]]:
                    ks = {k for k, o in enumerate(P.args(call)) if is_local(o) and number(ex(P, call.fn, o)) == m}
                    ns = ks if not ns else ns & ks
                if len(ns) == 1:
                    cand.append((i, a, base, ("arg", ns.pop())))
        for i, a, base, n in cand:
            one_filter(ck, P, F, i, a, base, n, found)
    return found


def one_filter(ck, P, F, st, addr, base, n, found):
    Ls = outer_of(F, P, st.block.name)
    if not Ls:
        return
    L, off = Ls[0], addr[3]
    ck.count("filters")
    key = "filter:%s" % F.name
    w = span(L, off, n, P)
    if w:
        ck.violation(key + ":range", P.where(st), "%s %s: not every item is compared with the list" % (F.name, w))
    item = ("ld", addr)

    def is_key(e):
        return "value" if e == item else "position" if linear(e, off) == 1 else \
            ("position" if linear(off, e) == -1 else None)

    def listed(e):
        return e[0] == "ld" and e[1][0] == "idx" and e[1][1] != base

    cmps, lists, hows = [], set(), set()
    for i in F.instrs():
        if i.op != "icmp" or i.block.name not in L.body or i.x["pred"] not in ("eq", "ne"):
            continue
        a, b = ex(P, F, i.ops[0]), ex(P, F, i.ops[1])
        for x, y in ((a, b), (b, a)):
            if listed(y) and x[0] != "c":
                k = is_key(x)
                if k:
                    cmps.append((x, y, i))
                    lists.add(y[1][1])
                    hows.add(k)
                elif depends_iv(L, x, off) or x == ("ld", ("idx",) + addr[1:3] + (x[1][3] if len(x[1]) > 3 else 0,)) \
                        if x[0] == "ld" and x[1][0] == "idx" else depends_iv(L, x, off):
                    ck.violation(key + ":key", P.where(i), "%s compares another number with the list than that of the "
                                 "item it drops" % F.name)
    if not cmps:
        ivs = {("v", iv[k]) for iv in L.ivs for k in ("phi", "next")}
        for i in F.instrs():
            if i.op != "icmp" or i.block.name not in L.body or i.x["pred"] not in ("eq", "ne"):
                continue
            a, b = ex(P, F, i.ops[0]), ex(P, F, i.ops[1])
            for x, y in ((a, b), (b, a)):
                if any(linear(x, v) is not None for v in ivs) and listed(y) and \
                        not any(linear(off, v) is not None for v in ivs) and ivs & set(subexprs(off)):
                    ck.violation(key + ":key", P.where(i), "%s compares another number with the list than that of the "
                                 "item it drops" % F.name)
                if is_key(x) and y[0] == "ld" and y[1][0] == "arg" and y[1] != base:
                    ck.violation(key + ":list", P.where(i), "%s compares with the first entry of the list only" % F.name)
    if not cmps or len(lists) != 1 or len(hows) != 1:
        ck.count("filters_undecided")
        return
    lst, how = lists.pop(), hows.pop()
    found[F.name] = (lst, how)
    # the comparison runs over the whole list
    inner = [M for M in loops(F, P) if M.body < L.body and
             any(linear(y[1][3], ("v", iv["phi"])) is not None for _, y, _ in cmps for iv in M.ivs)]
    okexits = set()
    for M in inner:
        j = [y[1][3] for _, y, c in cmps]
        rec = False
        for iv in M.ivs:
            if not any(linear(o, ("v", iv["phi"])) is not None for o in j):
                continue
            d = next(x for x in (linear(o, ("v", iv["phi"])) for o in j) if x is not None)
            if iv["step"] == 1 and iv["init"][0] == "c" and iv["init"][1] + d != 0:
                ck.violation(key + ":list", P.where(cmps[0][2]), "%s compares with the list from entry %d on"
                             % (F.name, iv["init"][1] + d))
            for b, pred, bound, k, bottom in tests_of(P, F, M, iv):
                t = [s for s in F.blocks[b].succs if s not in M.body]
                okexits |= {(b, s) for s in t}
                rec = True
                c = counted(P, F, bound, lst)
                if c is not None:
                    c += d - k + (1 if bottom else 0)
                if c is not None and iv["step"] == 1 and (pred in ("ule", "sle") and c != -1 or
                                                          pred in ("ult", "slt", "ne") and c != 0):
                    ck.violation(key + ":list", P.where(F.blocks[b].term), "%s does not compare with exactly the entries "
                                 "of the list" % F.name)
        for b in M.body:                                   # the list's end mark
            t = F.blocks[b].term
            d = F.defs.get(t.ops[0]) if t.op == "br" and "c" in t.x and is_local(t.ops[0]) else None
            if d is not None and d.op == "icmp" and d.ops[1] == 0 and ex(P, F, d.ops[0])[0] == "ld" and \
                    ex(P, F, d.ops[0])[1][0] == "idx" and ex(P, F, d.ops[0])[1][1] == lst:
                okexits |= {(b, s) for s in F.blocks[b].succs if s not in M.body}
                rec = True
        if not rec:
            ck.count("filters_undecided")
            return
    bad = {}
    first = next(x for x in F.blocks[L.header].instrs if x.op != "phi")

    cmpof = {c.res: c.x["pred"] == "eq" for _, _, c in cmps}

    def dropped(facts):
        return facts.get(("=", item)) == 0 or facts.get(("eq", item, ("c", 0))) is True

    def tr(ins, s, ctx):
        it, m, done = s
        if ins is first:
            if it and not m and not done:
                bad.setdefault("kept", (st, "may keep an item that is not in the list"))
            return (True, False, False)
        if ins.res in cmpof:
            e = cmpof[ins.res]
            return [Known((int(e), (it, True, done))), Known((int(not e), (it, m, done)))]
        if ins is st:
            if m:
                bad.setdefault("lost", (st, "may drop an item that is in the list"))
            return (it, m, True)
        return None

    def edge(t, val, s, ctx):
        it, m, done = s
        tgt = t.x["t"] if val else t.x["f"]
        if dropped(ctx.facts):
            done = True
        for M in inner:
            if t.block.name in M.body and tgt not in M.body and (t.block.name, tgt) not in okexits and not m:
                bad.setdefault("stop", (t, "stops comparing with the list before its end"))
        if t.block.name in L.body and tgt not in L.body and it and t.block.name != L.header and not ranged(L, t.block.name):
            bad.setdefault("left", (t, "leaves items undecided"))
        return (it, m, done)
    tr.atoms = "values"
    explore(P, F, [(False, False, False)], tr, on_edge=edge, cap=2000)
    for k, (ins, msg) in sorted(bad.items()):
        ck.violation("%s:%s" % (key, k), P.where(ins), "%s %s" % (F.name, msg))
    ck.sample({"filter": F.name, "by": how, "comparisons": len(cmps)})


def ranged(L, b):
    return any(b == t[0] for iv in L.ivs for t in iv.get("tests", []))


def depends_iv(L, e, off):
    return any(linear(e, ("v", iv[k])) is not None and linear(off, ("v", iv[q])) is not None
               for iv in L.ivs for k in ("phi", "next") for q in ("phi", "next"))


def counted(P, F, e, lst):
    """k if e is (number of entries of the list) + k, as counted by a library function; None: something else"""
    k = 0
    while e[0] in ("add", "sub") and e[2][0] == "c":
        k += e[2][1] if e[0] == "add" else -e[2][1]
        e = e[1]
    d = F.defs.get(e[1]) if e[0] == "v" else None
    if d is not None and d.op == "call" and P.callee(d) in P.F and P.args(d) and ex(P, F, P.args(d)[0]) == lst:
        return k
    return None


# ---- counting ---------------------------------------------------------------------------------------------------
def counters(ck, P, names):
    """a count is the number of entries in front of the end mark"""
    for f in sorted(names):
        F = P.F[f]
        tests = []
        for i in F.instrs():
            if i.op == "icmp" and i.ops[1] == 0 and i.x["pred"] in ("eq", "ne"):
                e = ex(P, F, i.ops[0])
                if e[0] == "ld" and e[1][0] == "idx" and e[1][1][0] == "arg":
                    tests.append((i, e))
        rets = [b.term for b in F.blocks.values() if b.term.op == "ret"]
        if not tests or F.retty != "i64":
            continue
        ck.count("list_counters")
        bad = {}
        keep = {e for _, e in tests}

        def tr(ins, s, ctx):
            return None
        R = explore(P, F, [0], tr, keep=keep)
        for ret, s, node, facts in R.exits:
            v = ret.ops[0]
            r = {ex(P, F, v), ex(P, F, facts.get(("alias", v), v))}
            at = {k[1] for k, x in facts.items() if k[0] == "alias" and ex(P, F, x) in r} if v not in r else set()
            r |= {("v", x) for x in at}
            ok = any(facts.get(("=", e)) == 0 and any(linear(e[1][3], x) == 0 for x in r) for _, e in tests) or \
                any(k[0] == "ult" and x is False and k[1] in r for k, x in facts.items())     # (full; refused before)
            if not ok:
                bad.setdefault("count", (ret, "returns a number that is not the position of the list's end mark"))
        for L in loops(F, P):
            for i, e in tests:
                d = F.defs.get(e[1][3][1]) if e[1][3][0] == "v" else None
                if d is not None and d.op == "phi" and d.block.name == L.header:
                    for o, bb in zip(d.ops, d.x["bbs"]):
                        q = F.defs.get(o) if is_local(o) and bb in L.body else None
                        if q is not None and q.op == "add" and d.res in q.ops and 1 not in q.ops:
                            bad.setdefault("walk", (i, "does not look at every entry from the first on"))
                for iv in L.ivs:
                    if i.block.name in L.body and linear(e[1][3], ("v", iv["phi"])) is not None:
                        if iv["init"] != ("c", 0) or iv["step"] != 1 or linear(e[1][3], ("v", iv["phi"])) != 0:
                            bad.setdefault("walk", (i, "does not look at every entry from the first on"))
        for k, (ins, msg) in sorted(bad.items()):
            ck.violation("count:%s:%s" % (f, k), P.where(ins), "%s %s" % (f, msg))


# ---- filling the lists ------------------------------------------------------------------------------------------
def fills(ck, P):
    """lists of a new suite: every entry is written; instances and dimensions are those given, functions are numbered"""
    for F in P.F.values():
        by = {}
        for i in F.instrs():
            if i.op != "store" or i.optys[0] != "i64" or i.ops[0] == 0:
                continue
            a = P.expr(F, i.ops[1])
            if a[0] == "idx" and (member(a[1]) or fresh_member(P, F, a[1])):
                by.setdefault(member(a[1]) or fresh_member(P, F, a[1]), []).append((i, a))
        for m, sts in sorted(by.items()):
            ck.count("list_fills")
            key = "fill:%s:%s" % (F.name, m)
            ok = False
            for i, a in sts:
                Ls = outer_of(F, P, i.block.name)
                v = ex(P, F, i.ops[0])
                if not Ls:
                    continue
                L = Ls[-1]
                ns = [("ld", ("fld", a[1][1][1], SU, "number_of_" + m))] if member(a[1]) else []
                ns += [ex(P, F, s.ops[0]) for s in F.instrs() if s.op == "store" and
                       P.expr(F, s.ops[1])[0] == "fld" and P.expr(F, s.ops[1])[2:] == (SU, "number_of_" + m)]
                ws = [span(L, a[3], n, P) for n in ns]
                if None not in ws:
                    w = [x for x in ws if x]
                    if w:
                        ck.violation(key + ":range", P.where(i), "%s %s: not every entry of %s is set" % (F.name, w[0], m))
                    elif ws:
                        ck.count("fills_undecided")
                    continue
                if must_pass(F, L, {i.block.name}):
                    ok = True
                if v[0] == "ld" and v[1][0] == "idx" and v[1][1] != a[1]:
                    if v[1][3] != a[3]:
                        if {("v", iv[k]) for iv in L.ivs for k in ("phi", "next")} & set(subexprs(v[1][3])):
                            ck.violation(key + ":entry", P.where(i), "%s copies another entry of the given list of %s"
                                         % (F.name, m))
                elif m == "functions":
                    k = linear(v, a[3])
                    if k is None and linear(v, ("ld", a)) is not None:
                        k = 1 + linear(v, ("ld", a))
                        if k not in (1, 101):
                            ck.violation(key + ":number", P.where(i), "%s numbers the functions from %s on" % (F.name, k))
                    elif k is not None and k not in (1, 101):
                        ck.violation(key + ":number", P.where(i), "%s numbers the functions from %s on" % (F.name, k))


def fresh_member(P, F, base):
    """the list a fresh array becomes"""
    for s in F.instrs():
        if s.op == "store" and s.optys[0] == "ptr" and is_local(s.ops[0]) and P.expr(F, s.ops[0]) == base:
            a = P.expr(F, s.ops[1])
            if a[0] == "fld" and a[2] == SU and a[3] in LISTS and base[0] == "v":
                return a[3]


# ---- reading ranges ---------------------------------------------------------------------------------------------
def range_readers(P):
    """functions (text, min, max, ..., capacity) -> list of numbers: return a fresh list of integers written in a loop
    from one number to another"""
    out = []
    for F in P.F.values():
        if F.retty != "ptr" or len(F.params) < 4 or F.params[0][0] != "ptr" or \
                [t for t, _ in F.params].count("i64") != 3:
            continue
        if not any(i.op == "call" and P.callee(i) in ("strtol", "strtoul", "atoi", "atol", "sscanf", "__isoc99_sscanf",
                                                      "strtoull", "strtoll")
                   for i in F.instrs()):
            continue
        out.append(F.name)
    return out


def ranges(ck, P):
    rs = range_readers(P)
    for f in rs:
        F = P.F[f]
        ints = [("arg", k) for k, (t, _) in enumerate(F.params) if t == "i64"]
        lo_p, hi_p, cap = ints
        for i in F.instrs():
            if i.op != "store" or i.optys[0] != "i64" or not is_local(i.ops[0]):
                continue
            a = P.expr(F, i.ops[1])
            v = P.expr(F, i.ops[0])
            if a[0] != "idx" or a[1][0] != "v" or F.defs.get(a[1][1]) is None or F.defs[a[1][1]].op != "call":
                continue
            Ls = outer_of(F, P, i.block.name)
            if not Ls:
                continue
            L = Ls[-1]
            for iv in L.ivs:
                d = linear(v, ("v", iv["phi"]))
                if d is None:
                    continue
                one_range(ck, P, F, i, a, v, L, iv, d, lo_p, hi_p, cap)
    return rs


def web(F, v):
    """the values that are versions of one counter"""
    out, st = set(), [v]
    while st:
        x = st.pop()
        if not is_local(x) or x in out:
            continue
        d = F.defs.get(x)
        if d is None:
            continue
        if d.op == "phi":
            out.add(x)
            st.extend(d.ops)
        elif d.op == "add" and isinstance(d.ops[1], int):
            out.add(x)
            st.append(d.ops[0])
    ch = True
    while ch:
        ch = False
        for i in F.instrs():
            if i.res and i.res not in out and (i.op == "phi" and any(o in out for o in i.ops) or
                                               i.op == "add" and i.ops[0] in out and isinstance(i.ops[1], int)):
                out.add(i.res)
                ch = True
    return out


def one_range(ck, P, F, st, addr, v, L, iv, d, lo_p, hi_p, cap):
    key = "ranges:%s" % F.name
    ck.count("range_writers")
    res = addr[1]
    lo = iv["init"]
    ups = [(b, pred, bound, nx) for b, pred, bound, nx in iv.get("tests", []) if linear(bound, cap) is None]
    if iv["step"] != 1:
        ck.violation(key + ":step", P.where(st), "%s skips numbers of a range" % F.name)
        return
    if d != 0:
        ck.violation(key + ":start", P.where(st), "%s writes another number than the one it stands at" % F.name)
        return
    if len(ups) != 1:
        ck.count("ranges_undecided")
        return
    b, pred, hi, nx = ups[0]
    if nx or pred not in ("ule", "sle"):
        if not nx and pred in ("ult", "slt", "ne") and hi[0] in ("ld", "v"):
            ck.violation(key + ":end", P.where(F.blocks[b].term), "%s leaves out the last number of a range" % F.name)
        else:
            ck.count("ranges_undecided")
        return
    # only the range's end and a full list end the writing
    W = addr[3]
    cw = None
    if W[0] == "v":
        cw = web(F, W[1])
    tests = {b}
    for x in L.body:
        t = F.blocks[x].term
        outs = [s for s in F.blocks[x].succs if s not in L.body]
        if not outs or x == b:
            continue
        c = F.defs.get(t.ops[0]) if t.op == "br" and "c" in t.x and is_local(t.ops[0]) else None
        th = None
        if c is not None and c.op == "icmp":
            a1, b1, p = ex(P, F, c.ops[0]), ex(P, F, c.ops[1]), c.x["pred"]
            if linear(a1, cap) is not None:
                a1, b1 = b1, a1
                p = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(p, p)
            k = linear(b1, cap)
            s = linear(a1, W)
            if k is not None and s is not None:
                if t.x["t"] in L.body:
                    p = {"ult": "uge", "ugt": "ule", "ule": "ugt", "uge": "ult", "ne": "eq", "eq": "ne"}.get(p, p)
                th = {"uge": k - s, "ugt": k - s + 1, "eq": k - s}.get(p)
        if th is None:
            if c is None or c.op != "icmp":
                ck.count("ranges_undecided")
                return
            ck.violation(key + ":exit", P.where(t), "%s may stop writing the numbers of a range before its end" % F.name)
        elif th != 0:
            ck.violation(key + ":full", P.where(t), "%s takes a list for full at %+d entries of its capacity" % (F.name, th))
    if not must_pass(F, L, {st.block.name}):
        full = [x for x in L.body if x != b and any(s not in L.body for s in F.blocks[x].succs)]
        ck.violation(key + ":skip", P.where(st), "%s may leave out numbers of a range" % F.name)
    # what the ends are
    cells = {}
    for nme, e in (("lo", lo), ("hi", hi)):
        if e[0] == "ld":
            cells[e] = nme
    bad = {}
    texts = {i.res for i in F.instrs() if i.op == "call" and P.callee(i) in ("strtol", "strtoul", "strtoull", "strtoll")}
    arr = {e[1][1] for e in cells if e[1][0] == "idx"} | {e[1] for e in cells}
    dash = []
    for i in F.instrs():
        if i.op == "icmp" and i.x["pred"] in ("eq", "ne"):
            x = ex(P, F, i.ops[0])
            if x[0] == "sub" and i.ops[1] == 0:
                dash.append(i)
    webs = cw or set()
    adds = [F.defs[x] for x in webs if F.defs[x].op == "add"]
    roots = [o for x in webs if F.defs[x].op == "phi" for o in F.defs[x].ops if o not in webs]
    exact = bool(adds) and all(d.ops[1] == 1 and d.block.name == st.block.name for d in adds) and set(roots) <= {0}
    if adds and all(d.block.name == st.block.name for d in adds) and not exact:
        ck.violation(key + ":counter", P.where(st), "%s does not count the numbers it has written" % F.name)

    def source(s, o, ctx):
        e = ctx.resolve(ex(P, F, o))
        if e == lo_p:
            return "min"
        if e == hi_p:
            return "max"
        if e in cells:
            return dict(s[0]).get(cells[e], "?")
        if e[0] == "v" and e[1] in texts or e[0] in ("sext", "zext", "trunc"):
            return "text"
        return "?"

    def tr(ins, s, ctx):
        src, ok, side, term, alloc, wr = s
        if ins.op == "store":
            a = P.expr(F, ins.ops[1])
            e = ("ld", a)
            if e in cells:
                n = cells[e]
                w = source(s, ins.ops[0], ctx)
                clip = n == "lo" and ctx.facts.get(("ult", e, lo_p)) is True or \
                    n == "hi" and ctx.facts.get(("ult", hi_p, e)) is True
                if clip:
                    if w != ("min" if n == "lo" else "max"):
                        bad.setdefault("clip", (ins, "does not move a number outside the limits to the limit"))
                else:
                    src = tuple(sorted(dict(src, **{n: w}).items()))
                k = dict(src).get(n) if not clip else w
                ok = frozenset(x for x in ok if x[0] != n)
                if n == "lo" and w == "min" or n == "hi" and w == "max":
                    ok |= {(n, "in")}
                return (src, ok, side, term, alloc, wr)
            if a[0] == "idx" and a[1] in arr and a[3][0] != "c":
                return ((("hi", "text"), ("lo", "text")), frozenset(), side, term, alloc, wr)
            if a[0] == "idx" and a[1] == res:
                if ins is st:
                    cl = dict(src)
                    for n, lim, nm in (("lo", lo_p, "min"), ("hi", hi_p, "max")):
                        e = lo if n == "lo" else hi
                        if e in cells:
                            good = (n, "in") in ok or ("no" + n, "in") in ok
                        else:
                            r = ctx.resolve(e)
                            good = r == lim or (("ssa", r, n) in ok) or ("no" + n, "in") in ok or r[0] not in ("v",)
                        if not good:
                            bad.setdefault("limit" + n, (ins, "may list numbers %s the limit it was given"
                                                         % ("below" if n == "lo" else "above")))
                    if len(cells) == 2:
                        if side == "front" and cl.get("hi") not in ("text", "?"):
                            bad.setdefault("front", (ins, "does not end a range '-n' at n"))
                        if side == "front" and cl.get("lo") not in ("min", "?"):
                            bad.setdefault("front", (ins, "does not begin a range '-n' at the lower limit"))
                        if side == "back" and cl.get("hi") not in ("max", "?"):
                            bad.setdefault("back", (ins, "does not end a range 'n-' at the upper limit"))
                        if side == "back" and cl.get("lo") not in ("text", "?"):
                            bad.setdefault("back", (ins, "does not begin a range 'n-' at n"))
                    return (src, ok, side, False, alloc, True)
                if ins.ops[0] == 0:
                    x = a[3]
                    if webs and not (x[0] == "v" and x[1] in webs):
                        bad.setdefault("mark", (ins, "puts the end mark elsewhere than behind the last number"))
                    return (src, ok, side, True, alloc, wr)
        if ins.op == "call" and ("v", ins.res) == res:
            return (src, ok, side, False, True, wr)
        return None

    def edge(t, val, s, ctx):
        src, ok, side, term, alloc, wr = s
        f = ctx.facts
        for e, n in cells.items():
            if n == "lo" and f.get(("ult", e, lo_p)) is False or n == "hi" and f.get(("ult", hi_p, e)) is False:
                ok |= {(n, "in")}
        for n, e, lim in (("lo", lo, lo_p), ("hi", hi, hi_p)):
            if f.get(("=", lim)) == 0 or f.get(("eq", lim, ("c", 0))) is True:
                ok |= {("no" + n, "in")}
            if e not in cells:
                for k, vv in f.items():
                    if vv is False and k[0] == "ult" and (k[2] == lim and n == "lo" or k[1] == lim and n == "hi"):
                        ok |= {("ssa", k[1] if n == "lo" else k[2], n)}
        d = F.defs.get(t.ops[0]) if is_local(t.ops[0]) else None
        if exact and d is not None and d.op == "icmp" and d.ops[0] in webs and d.ops[1] == 0 and d.x["pred"] in ("eq", "ne", "ugt"):
            if ((d.x["pred"] == "eq") == val) == wr:
                return "STOP"                            # the counter is 0 exactly while nothing has been written
        if d in dash:
            side = "front" if (d.x["pred"] == "eq") == val else "back"
            if len(cells) == 2:
                src = (("hi", "stale"), ("lo", "text"))
        if t.block.name in L.body and (t.x["t"] if val else t.x["f"]) not in L.body:
            side = None                                 # the range is done
            ok = frozenset(x for x in ok if x[0].startswith("no"))
            src = (("hi", "?"), ("lo", "?"))
        return (src, ok, side, term, alloc, wr)
    keep = {lo_p, hi_p} | set(cells)
    tr.atoms = not cells
    R = explore(P, F, [((("hi", "?"), ("lo", "?")), frozenset(), None, False, False, False)], tr, on_edge=edge,
                keep=keep, cap=4000)
    for ret, s, node, facts in R.exits:
        v = ret.ops[0]
        n = 0
        while ("alias", v) in facts and n < 10:
            v = facts[("alias", v)]
            n += 1
        if v in (0, "null"):
            ck.count("range_results")
            if exact and s[5]:
                bad.setdefault("gone", (ret, "may throw the numbers away that it has read"))
        elif is_local(v) and P.expr(F, v) == res:
            ck.count("range_results")
            if not s[3]:
                bad.setdefault("open", (ret, "may return a list without an end mark"))
            if exact and not s[5]:
                bad.setdefault("empty", (ret, "may return an empty list"))
    for k, (ins, msg) in sorted(bad.items()):
        ck.violation("%s:%s" % (key, k), P.where(ins), "%s %s" % (F.name, msg))
    ck.count("range_paths", R.nodes)


# ---- which option filters what ----------------------------------------------------------------------------------
def wiring(ck, P, filt, readers):
    from .options import reads
    for F, i, T, B, a0, tgt in reads(P):
        if not T or len(T) != 1 or not is_local(tgt):
            continue
        name = next(iter(T))
        name = name if isinstance(name, str) else str(name)
        for c in F.instrs():
            if c.op != "call" or P.callee(c) not in readers or P.args(c)[0] != tgt:
                continue
            uses = [u for u in F.instrs() if u.op == "call" and P.callee(u) in filt and c.res in
                    vals(F, P.args(u)[filt[P.callee(u)][0][1]])]
            for u in uses:
                ck.count("filter_options")
                lst, how = filt[P.callee(u)]
                ms = {member(ex(P, F, o)) for k, o in enumerate(P.args(u)) if is_local(o)} - {None}
                if not ms:                              # the filter is handed the suite
                    G = P.F[P.callee(u)]
                    ms = {member(P.expr(G, s.ops[1])[1]) for s in G.instrs() if s.op == "store" and s.ops[0] == 0 and
                          P.expr(G, s.ops[1])[0] == "idx"} - {None}
                want = name[:-len("_indices")] + "s" if name.endswith("_indices") else name
                if want not in LISTS or len(ms) != 1:
                    continue
                m = next(iter(ms))
                if m != want:
                    ck.violation("option:%s:list" % name, P.where(u), "the option '%s' filters the suite's %s" % (name, m))
                byp = "position" if name.endswith("_indices") else "value"
                if how != byp:
                    ck.violation("option:%s:how" % name, P.where(u), "the option '%s' is compared with the %s of the items"
                                 % (name, how))
                ints = [ex(P, F, o) for k, o in enumerate(P.args(c)) if c.optys[k] == "i64"]
                if len(ints) != 3:
                    continue
                lo, hi = ints[0], ints[1]
                if byp == "position":
                    okl = lo == ("c", 1)
                    okh = number(hi) == m
                else:
                    okl = lo[0] == "ld" and lo[1][0] == "idx" and member(lo[1][1]) == m and lo[1][3] == ("c", 0)
                    okh = hi[0] == "ld" and hi[1][0] == "idx" and member(hi[1][1]) == m and \
                        number(hi[1][3][1]) == m and linear(hi[1][3], hi[1][3][1]) == -1 if hi[0] == "ld" and hi[1][0] == "idx" \
                        and hi[1][3][0] in ("sub", "add") else False
                for ok, e, what in ((okl, lo, "lower"), (okh, hi, "upper")):
                    if not ok and (e[0] in ("c", "add", "sub") or number(e) or e[0] == "ld" and e[1][0] == "idx"):
                        ck.violation("option:%s:%s" % (name, what), P.where(c), "the %s limit of the option '%s' is not that "
                                     "of the suite's %s" % (what, name, m))


def vals(F, v):
    out, st = set(), [v]
    while st:
        x = st.pop()
        if x in out or not is_local(x):
            continue
        out.add(x)
        d = F.defs.get(x)
        if d is not None and d.op in ("phi", "select"):
            st.extend(d.ops)
    return out


@rule("C27", "path-sensitive dataflow on LLVM IR (membership loops, list copies, range expansion, option wiring)",
      "Every store of 0 into one of the suite's lists (functions, dimensions, instances; directly or through a function "
      "that is handed the list) is a filter: all paths through one pass of its loop are explored with a matched/not "
      "matched state: an item whose number (position + 1, or the value itself) equalled an entry of the given list is "
      "never dropped, any other always is, the loop covers every item and the comparison every entry. Lists of new "
      "suites are filled completely and entry by entry. The list counter returns the position of the end mark. Where "
      "ranges are read, all paths to the writing of a number are explored: both ends are within the given limits, every "
      "number from the lower to the upper end is written until the list is full, an open end stands for the limit of "
      "its side, and every returned list carries its end mark. Each filter option filters its own list, by the kind of "
      "number it names and with that list's limits.",
      ["the text-to-number conversion of the C library", "dimensions of a suite are listed in ascending order"])
def c27(ck):
    P = ck.P
    filt = filters(ck, P)
    names = set()
    for F in P.F.values():
        for i in F.instrs():
            e = ex(P, F, i.ops[1]) if i.op == "store" else None
            if e is not None and (number(("ld", e)) or F.name in filt):
                d = F.defs.get(i.ops[0]) if is_local(i.ops[0]) else None
                if d is not None and d.op == "call" and P.callee(d) in P.F:
                    names.add(P.callee(d))
            if i.op == "call" and F.name in filt and P.callee(i) in P.F and P.F[P.callee(i)].retty == "i64":
                names.add(P.callee(i))
    counters(ck, P, names)
    fills(ck, P)
    rs = ranges(ck, P)
    wiring(ck, P, {f: v for f, v in filt.items() if v[0][0] == "arg"}, rs)
