"""C14: every option is recognised, read, given a default and put to use; unknown ones are reported."""
import math
import re
import struct
from ..build import AnalysisError
from ..check import rule
from ..core import is_local
from ..esp import explore
from ..flow import ext_name
from ..util import path_of
from .strings import Formats

READ = "coco_options_read"


def readers(P):
    """functions (options, name, ..., target) that look an option up"""
    return {n for n in P.F if n.startswith(READ) and len(P.F[n].params) >= 3}


def wrappers(P):
    """functions that look up an option whose name they are given"""
    rd = readers(P)
    W = set()
    while True:
        n = len(W)
        for F in P.F.values():
            if F.name in rd or F.name in W:
                continue
            for i in F.instrs():
                if i.op == "call" and P.callee(i) in rd | W and any(
                        o in F.argidx and F.params[F.argidx[o]][0] == "ptr" and (q == 1 or P.callee(i) in W)
                        for q, o in enumerate(P.args(i)) if q != 0):
                    keyed = P.callee(i) in W or P.args(i)[1] in F.argidx
                    if keyed and F.internal and any(P.callers(F.name)):
                        W.add(F.name)
        if len(W) == n:
            return W


def views(P):
    """the functions that read options, with their own lookup helpers expanded"""
    rd, W = readers(P), wrappers(P)
    out = []
    for F in P.F.values():
        if F.name in rd or F.name in W:
            continue
        cs = {P.callee(i) for i in F.instrs() if i.op == "call"}
        if cs & W:
            F = P.inline(F.name, lambda c: c in W)
        elif not cs & rd:
            continue
        out.append(F)
    return out


def reads(P):
    """(function, call, key, target operand) of every option that is read"""
    rd = readers(P)
    fm = Formats(P)
    out = []
    for F in views(P):
        for i in F.instrs():
            if i.op == "call" and P.callee(i) in rd:
                a = P.args(i)
                T, B = fm.texts(F, a[1])
                out.append((F, i, T, B, a[0], a[-1]))
    return out


def const_strings(P, F, v):
    """strings of a constant array of pointers behind a pointer operand"""
    d = F.defs.get(v) if is_local(v) else None
    while d is not None and d.op == "getelementptr":
        v = d.ops[0]
        d = F.defs.get(v) if is_local(v) else None
    names = []
    if isinstance(v, str) and v.startswith("@"):
        names = [v[1:]]
    elif d is not None and d.op == "alloca":
        for i in F.instrs():
            if i.op == "call" and (P.callee(i) or "").startswith("llvm.memcpy") and P.args(i)[0] == v:
                s = P.args(i)[1]
                if isinstance(s, str) and s.startswith("@"):
                    names.append(s[1:])
        # element by element
        out = set()
        for i in F.instrs():
            if i.op == "store" and i.optys[0] == "ptr":
                g = i.ops[1]
                e = F.defs.get(g) if is_local(g) else None
                if g == v or (e is not None and e.op == "getelementptr" and e.ops[0] == v):
                    s = P.string(i.ops[0])
                    if s is not None:
                        out.add(s)
        if out:
            return out
    for n in names:
        g = P.M.globals.get(n)
        if g:
            ps = re.findall(r"ptr (@[-\w.$]+)", g["body"])
            ss = [P.string(p) for p in ps]
            if ss and all(s is not None for s in ss):
                return set(ss)
    return None


def root(P, F, v, depth=0):
    """public parameters an options operand may come from"""
    if v in F.argidx:
        if not F.internal or depth > 6:
            return {(F.name, F.argidx[v])}
        out = set()
        for c in P.callers(F.name):
            out |= root(P, c.fn, P.args(c)[F.argidx[v]], depth + 1)
        for G in P.F.values():                      # calls through pointers
            pass
        return out or {(F.name, F.argidx[v])}
    d = F.defs.get(v) if is_local(v) else None
    if d is not None and d.op in ("phi", "select"):
        out = set()
        for o in (d.ops if d.op == "phi" else d.ops[1:]):
            if is_local(o) and depth < 6:
                out |= root(P, F, o, depth + 1)
        return out
    if d is not None and d.op == "load":
        # a local variable whose address is taken
        a = d.ops[0]
        st = [i.ops[0] for i in F.instrs() if i.op == "store" and i.ops[1] == a]
        out = set()
        for o in st:
            if is_local(o) and depth < 6:
                out |= root(P, F, o, depth + 1)
        return out
    return set()


def keys(ck, P, R):
    """lists of known keys against the keys that are read"""
    own = {}                    # sub-functions with a list of their own: name -> (keys, call)
    direct = []                 # (root, keys, call)
    for F in P.F.values():
        for i in F.instrs():
            if i.op != "call" or P.callee(i) != "coco_option_keys_allocate":
                continue
            ks = const_strings(P, F, P.args(i)[1])
            n = P.args(i)[0]
            if ks is None:
                continue
            ck.count("key_lists")
            if isinstance(n, int) and n != len(ks):
                ck.violation("count:%s" % F.name, P.where(i), "%d of the %d keys %s are announced" %
                             (n, len(ks), ", ".join(sorted(ks))))
            # where does the list go?
            used = set()
            todo, seen = [i.res], set()
            stored = False
            while todo:
                v = todo.pop()
                if v in seen:
                    continue
                seen.add(v)
                for u in F.users().get(v, ()):
                    if u.op == "call" and P.callee(u) == "coco_option_keys_get_redundant" and P.args(u)[0] == v:
                        used.add(u)
                    elif u.op in ("phi", "select"):
                        todo.append(u.res)
                    elif u.op == "store" and u.ops[0] == v:
                        a = u.ops[1]
                        if a in F.argidx:
                            stored = True
                        else:
                            todo += [x.res for x in F.instrs() if x.op == "load" and x.ops[0] == a]
            if used:
                for u in used:
                    g = P.args(u)[1]
                    d = F.defs.get(g) if is_local(g) else None
                    if d is not None and d.op == "call" and P.args(d):
                        for r in root(P, F, P.args(d)[0]):
                            direct.append((r, ks, i, F.name))
            else:
                own.setdefault(F.name, (set(), i))[0].update(ks)
    byfn = {}
    allkeys = {}
    for F, i, T, B, opt, tgt in R:
        for b in B:
            ck.count("keys_undecided")
        for t in T:
            byfn.setdefault(F.name, {})[t] = i
            for r in root(P, F, opt):
                allkeys.setdefault(r, {})[t] = (F.name, i)
    # functions with a list of their own (helpers only called from there belong to them)
    cg = P.callgraph()
    claimed = set()
    for f, (ks, i) in sorted(own.items()):
        fns = {f} | {g for g in P.reach([f]) if g in byfn}
        rd = {}
        for g in fns:
            rd.update(byfn.get(g, {}))
            claimed.add(g)
        if not rd and not ks:
            continue
        compare(ck, P, f, ks, rd, i)
    for r, ks, i, f in direct:
        rd = {t: c for t, (g, c) in allkeys.get(r, {}).items() if g not in claimed}
        compare(ck, P, f, ks, rd, i)
        # a key is found by searching for its text: no key may contain another
        full = sorted(set(ks) | set(allkeys.get(r, {})))
        for a in full:
            for b in full:
                if a != b and a in b:
                    ck.violation("nested:%s" % a, P.where(i), "the option '%s' is contained in the option '%s': reading the "
                                 "first finds the second" % (a, b))
    ck.need("key_lists", 3)


def compare(ck, P, f, known, rd, i):
    for k in sorted(known | set(rd)):
        ck.count("keys")
        if k not in rd:
            ck.violation("unread:%s:%s" % (f, k), P.where(i), "the option '%s' is announced as valid by %s but never read: it is "
                         "silently ignored" % (k, f))
        elif k not in known:
            ck.violation("unknown:%s:%s" % (f, k), P.where(rd[k]), "the option '%s' is read but missing from the valid keys of "
                         "%s: the user is told that it was ignored" % (k, f))


def positions(ck, P):
    """the position of a text found at the very start is 0"""
    for F in P.F.values():
        for i in F.instrs():
            if i.op != "icmp":
                continue
            for a, b, sw in ((i.ops[0], i.ops[1], False), (i.ops[1], i.ops[0], True)):
                d = F.defs.get(a) if is_local(a) else None
                while d is not None and d.op in ("sext", "trunc", "freeze"):
                    d = F.defs.get(d.ops[0])
                if d is None or d.op != "call" or P.callee(d) != "coco_strfind" or not isinstance(b, int):
                    continue
                p = i.x["pred"]
                if sw:
                    p = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(p, p)
                ck.count("positions")
                if (p, b) in (("sgt", 0), ("sle", 0), ("sge", 1), ("slt", 1), ("eq", 0), ("ne", 0)):
                    ck.violation("position:%s" % F.name, P.where(i), "a text found at position 0 is treated as not found")


def precedence(ck, P, R):
    """of two options that exclude each other (their positions are compared) the first one counts"""
    fs = {F.name: F for F, i, T, B, opt, tgt in R}
    keyof = {id(i): T for F, i, T, B, opt, tgt in R}
    for n, F in sorted(fs.items()):
        def found(v):
            d = F.defs.get(v) if is_local(v) else None
            while d is not None and d.op in ("sext", "zext", "trunc", "freeze"):
                d = F.defs.get(d.ops[0])
            if d is not None and d.op == "call" and P.callee(d) == "coco_strfind" and len(P.args(d)) > 1:
                return P.string(P.args(d)[1])
            return None
        pairs = {}
        for i in F.instrs():
            if i.op == "icmp":
                a, b = found(i.ops[0]), found(i.ops[1])
                p = i.x["pred"][-2:]
                if a and b and a != b and p in ("lt", "gt", "le", "ge"):
                    pairs[i.res] = (a, b) if p in ("lt", "le") else (b, a)
        if not pairs:
            continue
        opts = {x for q in pairs.values() for x in q}
        bad = {}

        def tr(ins, st, ctx):
            if id(ins) in keyof:
                k = keyof[id(ins)] & opts
                for x in k:
                    if x == st[1]:
                        bad.setdefault("later:" + x, (ins, "the option '%s' is used although '%s' precedes it" % (x, st[0])))
                    if x == st[0]:
                        return (st[0], st[1], True)
            return None

        def oe(t, val, st, ctx):
            v = t.ops[0] if t.op == "br" and t.ops else None
            pos, k = val, 0
            while is_local(v) and v not in pairs and k < 8:
                k += 1
                d = F.defs.get(v)
                if d is None:
                    break
                if d.op == "phi":
                    v = ctx.facts.get(("alias", v))
                elif d.op in ("zext", "freeze", "sext"):
                    v = d.ops[0]
                elif d.op == "icmp" and d.ops[1] == 0 and d.x["pred"] in ("eq", "ne"):
                    pos = pos == (d.x["pred"] == "ne")
                    v = d.ops[0]
                elif d.op == "xor" and d.ops[1] in (1, True, "true"):
                    v, pos = d.ops[0], not pos
                else:
                    break
            if isinstance(v, str) and v in pairs:
                a, b = pairs[v]
                return (a, b, False) if pos else (b, a, False)
            return st
        RR = explore(P, F, [(None, None, False)], tr, on_edge=oe)
        for ret, st, node, facts in RR.exits:
            ck.count("precedence_paths")
            if st[0] and not st[2]:
                bad.setdefault("first:" + st[0], (ret, "the option '%s' is not used although it precedes '%s'" % st[:2]))
        for k, (ins, msg) in sorted(bad.items()):
            ck.violation("precedence:%s:%s" % (n, k), P.where(ins), "%s: %s" % (n, msg))


COPY = {"coco_strdup", "strdup"}


def dests(P, F, v, mem, depth=0, seen=None):
    """fields a value (or, mem: the value in a cell) ends up in"""
    seen = seen if seen is not None else set()
    if (F.name, v, mem) in seen or depth > 5:
        return set()
    seen.add((F.name, v, mem))
    out = set()
    for u in F.users().get(v, ()):
        if mem and u.op == "load" and u.ops[0] == v:
            out |= dests(P, F, u.res, False, depth, seen)
        elif mem and u.op == "getelementptr":
            out |= dests(P, F, u.res, True, depth, seen)
        elif not mem and u.op in ("zext", "sext", "trunc", "phi", "select", "sitofp", "uitofp", "fptosi"):
            out |= dests(P, F, u.res, False, depth, seen)
        elif not mem and u.op == "store" and u.ops[0] == v:
            e = P.expr(F, u.ops[1])
            if e[0] == "fld":
                out.add((e[2], e[3]))
        elif u.op == "call":
            c = P.callee(u)
            if c in COPY or (c and ext_name(c) in COPY):
                out |= dests(P, F, u.res, False, depth, seen)
            elif c in P.F and c not in readers(P):
                G = P.F[c]
                for q, o in enumerate(P.args(u)):
                    if o == v and q < len(G.params):
                        out |= dests(P, G, G.params[q][1], mem, depth + 1, seen)
    return out


def effects(ck, P, R):
    """option -> field of the same name; fields set from options are used"""
    fields = {}
    for F in P.F.values():
        for i in F.instrs():
            if i.op == "getelementptr":
                e = P.expr(F, i.res)
                if e[0] == "fld":
                    fields.setdefault(e[2], set()).add(e[3])
    fed = {}
    for F, i, T, B, opt, tgt in R:
        e = P.expr(F, tgt)
        if e[0] == "fld":
            ds = {(e[2], e[3])}
        elif e[0] == "ld" and e[1][0] == "fld":
            ds = {(e[1][2], e[1][3])}
        else:
            base = tgt
            d = F.defs.get(base) if is_local(base) else None
            while d is not None and d.op == "getelementptr":
                base = d.ops[0]
                d = F.defs.get(base) if is_local(base) else None
            if d is not None and d.op == "call":           # buffer on the heap
                ds = dests(P, F, base, False)
            else:
                ds = dests(P, F, base, True)
        for k in T:
            ck.count("options")
            ck.sample("%s: %s -> %s" % (F.name, k, ", ".join(sorted("%s.%s" % (s.replace("struct.", ""), f) for s, f in ds)) or "-"))
            for s, f in ds:
                fed.setdefault((s, f), (k, i))
                if k in fields.get(s, ()) and f != k and not any(x == k for _, x in ds):
                    ck.violation("role:%s" % k, P.where(i), "the option '%s' is stored in field '%s' instead of '%s'" % (k, f, k))
                elif f != k and f in T_all and f in fields.get(s, ()):
                    ck.violation("role:%s" % k, P.where(i), "the option '%s' is stored in the field of the option '%s'" % (k, f))
    # every such field is read for something else than releasing it
    read = set()
    for F in P.F.values():
        for i in F.instrs():
            if i.op != "load":
                continue
            e = P.expr(F, i.ops[0])
            if e[0] != "fld" or (e[2], e[3]) not in fed:
                continue
            for u in F.users().get(i.res, ()):
                if u.op == "call" and P.callee(u) == "coco_free_memory":
                    continue
                if u.op == "icmp" and u.ops[1] in (0, "null") and i.ty == "ptr":
                    continue
                read.add((e[2], e[3]))
    for (s, f), (k, i) in sorted(fed.items()):
        ck.count("option_fields")
        if (s, f) not in read:
            ck.violation("noeffect:%s" % k, P.where(i), "the option '%s' is stored in field '%s', which nothing ever reads: the "
                         "option has no effect" % (k, f))


T_all = set()


WRITERS = {"strcpy", "strncpy", "memcpy", "memset", "sprintf", "snprintf", "strcat"}
NOUSE = {"coco_free_memory", "coco_warning", "coco_info", "coco_debug"}


def positive(facts, e, strict=True):
    """the facts exclude that e is negative (strict: that it is 0, too)"""
    c = facts.get(("=", e))
    if c is not None:
        c = c - (1 << 32) if isinstance(c, int) and c >= 1 << 31 else c
        return c > 0 or not strict and c == 0
    for k, v in facts.items():
        if len(k) == 3 and k[0] in ("slt", "sle") and k[2] == e and k[1][0] == "c" and v and k[1][1] >= 0:
            return True
        if len(k) == 3 and k[0] in ("slt", "sle") and k[1] == e and k[2][0] == "c" and not v:
            n = k[2][1] + (k[0] == "sle")
            if n > 0 or n == 0 and not strict:
                return True
    if any(x in (-1, (1 << 32) - 1) for x in facts.get(("ne", e), ())):
        return not strict or 0 in facts.get(("ne", e), ())
    return False


def may_fail_negative(P):
    """readers that can return the negative value by which sscanf reports that there is nothing to read"""
    if hasattr(P, "_negread"):
        return P._negread
    out = set()
    ch = True
    while ch:
        ch = False
        for n in sorted(readers(P) | {c.fn.name for r in readers(P) for c in P.callers(r)}):
            F = P.F[n]
            if n in out or F.retty != "i32":
                continue
            src = {i.res for i in F.instrs() if i.op == "call" and i.res and (
                P.callee(i) in out or (P.callee(i) not in P.F and ext_name(P.callee(i) or "") in ("sscanf", "vsscanf")))}
            if not src:
                continue
            R = explore(P, F, [()], lambda *a: None, keep={P.expr(F, r) for r in src})
            for ret, st, node, facts in R.exits:
                v = ret.ops[0]
                v = facts.get(("alias", v), v)
                if v in src and not positive(facts, P.expr(F, v), False):
                    out.add(n)
                    ch = True
                    break
    P._negread = out
    return out


def defaults(ck, P, R):
    """when the option is absent its target has a value all the same"""
    byfn = {}
    for F, i, T, B, opt, tgt in R:
        byfn.setdefault(F.name, (F, []))[1].append((i, sorted(T), tgt))
    neg = may_fail_negative(P)
    ck.count("readers that report a missing value as negative", len(neg))
    for f, (F, l) in sorted(byfn.items()):
        calls = {}
        for i, T, tgt in l:
            calls[i.res] = (i, "/".join(T) or "?", P.expr(F, tgt))
        keep = frozenset(P.expr(F, r) for r in calls)

        def base(e):
            while e[0] == "idx":
                e = e[1]
            return e

        def step(i, st, cx):
            init, pend = st
            if i.op == "store":
                e = base(P.expr(F, i.ops[1]))
                return (init | {e}, frozenset(p for p in pend if calls[p][2] != e and base(calls[p][2]) != e))
            if pend and (i.op == "load" or (i.op == "call" and P.callee(i) not in NOUSE and P.callee(i) not in readers_)):
                ops = [i.ops[0]] if i.op == "load" else P.args(i)
                for o in ops:
                    if is_local(o):
                        e = base(P.expr(F, o))
                        for p in pend:
                            if base(calls[p][2]) == e and not (i.op == "call" and i.res in calls) and not writes(i, o):
                                early.setdefault(p, (i, cx.node if hasattr(cx, "node") else None))
            if i.op == "call":
                if i.res in calls:
                    e = base(calls[i.res][2])
                    if e not in init:
                        return (init, pend | {i.res})
                    return None
                n = P.callee(i)
                n = ext_name(n) if n and n not in P.F else None
                if n in WRITERS or (n or "").startswith("llvm.mem"):
                    e = base(P.expr(F, P.args(i)[0]))
                    return (init | {e}, frozenset(p for p in pend if base(calls[p][2]) != e))

        def edge(t, val, st, cx):
            init, pend = st
            out = set()
            for p in pend:
                e = P.expr(F, p)
                fs = cx.facts
                nz = 0 in fs.get(("ne", e), ()) or fs.get(("eq", e, ("c", 0))) is False or \
                    fs.get(("=", e)) not in (None, 0) or fs.get(("slt", ("c", 0), e)) is True
                if P.callee(F.defs[p]) in neg:
                    nz = False              # "nothing there" is reported as a negative number
                if not (nz or positive(fs, e)):
                    out.add(p)
            got = {base(calls[p][2]) for p in pend - out}
            return (init, frozenset(p for p in out if base(calls[p][2]) not in got))
        early = {}
        readers_ = readers(P)

        def writes(i, o):
            n = P.callee(i) if i.op == "call" else None
            n = ext_name(n) if n and n not in P.F else None
            return (n in WRITERS or (n or "").startswith("llvm.mem")) and P.args(i)[0] == o

        # a pending target may be left alone (a scratch text only looked at when it was read)
        local = {r for r, (i, k, e) in calls.items() if base(e)[0] not in ("fld", "ld", "arg")}
        R2 = explore(P, F, [(frozenset(), frozenset())], step, on_edge=edge, keep=keep)
        for p, (i, node) in early.items():
            ck.violation("default:%s:%s" % (f, calls[p][1]), P.where(i), "when the option '%s' is not given (or given without a value), its value is used "
                         "without having been set" % calls[p][1])
        for ins, st, node, facts in R2.exits:
            ck.count("default_paths")
            for p in st[1]:
                if p in local:
                    continue
                i, k, e = calls[p]
                ck.violation("default:%s:%s" % (f, k), P.where(i), "when the option '%s' is not given (or given without a value), its value is never set" % k,
                             path_of(P, F, R2, node))


INF = float("inf")
TINY = 5e-324
# values of numeric options that are usable; any other is replaced by the default (user's text)
RANGE = {"precision_x": (1, 32), "precision_f": (1, 32), "precision_g": (1, 32), "log_discrete_as_int": (0, 1),
         "number_evaluation_triggers": (4, INF), "log_target_precision": (TINY, INF), "lin_target_precision": (TINY, INF)}


def number(v):
    if isinstance(v, bool):
        return None
    if isinstance(v, (int, float)):
        return v
    if isinstance(v, str):
        if v.startswith("0x") and len(v) == 18:
            return struct.unpack(">d", bytes.fromhex(v[2:]))[0]
        try:
            return float(v)
        except ValueError:
            return None
    return None




def refine(iv, p, c, fp):
    """the part of an interval that satisfies  value p c"""
    lo, hi = iv

    def above(x):       # smallest value > x
        if fp:
            return math.nextafter(x, INF) if x != 0 else TINY
        return x + 1

    def below(x):
        if fp:
            return math.nextafter(x, -INF) if x != 0 else -TINY
        return x - 1
    if p == "lt":
        hi = min(hi, below(c))
    elif p == "le":
        hi = min(hi, c)
    elif p == "gt":
        lo = max(lo, above(c))
    elif p == "ge":
        lo = max(lo, c)
    elif p == "eq":
        lo, hi = max(lo, c), min(hi, c)
    elif p == "ne":
        if lo == c:
            lo = above(c)
        if hi == c:
            hi = below(c)
    else:
        return None
    return (lo, hi) if lo <= hi else ()


NEG = {"lt": "ge", "le": "gt", "gt": "le", "ge": "lt", "eq": "ne", "ne": "eq"}
MIRROR = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le", "eq": "eq", "ne": "ne"}


def ranges(ck, P, R):
    """interval analysis of the numeric options between where they are read and where they are used"""
    for F, call, T, B, opt, tgt in R:
        keys_ = [k for k in T if k in RANGE]
        if len(keys_) != 1 or len(T) != 1:
            continue
        k = keys_[0]
        d = F.defs.get(tgt) if is_local(tgt) else None
        if d is None or d.op != "alloca":
            ck.count("ranges_undecided")
            continue
        name = P.callee(call)
        fp = "double" in name
        top = (-INF, INF) if fp else (0, 2 ** 64 - 1) if "size_t" in name else (-2 ** 31, 2 ** 31 - 1)
        state = {F.order[0]: {None}}
        todo = [F.order[0]]
        bad, undecided = {}, False
        nsink = set()
        steps = 0

        def push(x, st):
            old = state.get(x)
            if old is None or not st <= old:
                state[x] = (old or set()) | st
                todo.append(x)

        while todo and not undecided:
            bn = todo.pop()
            steps += 1
            if steps > 20000:
                undecided = True
                break
            cur = set(state[bn])
            loads = {}
            blk = F.blocks[bn]
            for i in blk.instrs:
                if i.op == "store" and i.ops[1] == tgt:
                    c = number(i.ops[0])
                    if c is None:
                        undecided = True
                    else:
                        cur = {(c, c)}
                    loads = {}
                elif i is call:
                    cur = {("pend",) + (iv or (None, None)) for iv in cur if iv is None or iv[0] != "pend"}
                    loads = {}
                elif i.op == "load" and i.ops[0] == tgt:
                    loads[i.res] = True
                    for u in sinks(P, F, i.res):
                        nsink.add(u)
                        for iv in cur:
                            if iv is not None and iv[0] == "pend":
                                undecided = True
                            elif iv is not None and not (RANGE[k][0] <= iv[0] and iv[1] <= RANGE[k][1]):
                                bad[u] = iv
                elif i.op == "call" and tgt in i.ops and i is not call and not (P.callee(i) or "").startswith("llvm."):
                    undecided = True
            t = blk.instrs[-1]
            succ = {}
            if t.op == "br" and "c" in t.x:
                c = F.defs.get(t.ops[0]) if is_local(t.ops[0]) else None
                cmpd = None
                if c is not None and c.op == "icmp" and c.ops[0] == call.res and c.ops[1] == 0:
                    zero = {"eq": t.x["t"], "ne": t.x["f"], "sgt": t.x["f"], "sle": t.x["t"]}.get(c.x["pred"])
                    if zero is None:
                        undecided = True
                        break
                    other = t.x["f"] if zero == t.x["t"] else t.x["t"]
                    push(zero, {iv if iv is None or iv[0] != "pend" else None if iv[1] is None else iv[1:] for iv in cur})
                    push(other, {iv if iv is None or iv[0] != "pend" else top for iv in cur})
                    continue
                if cur and any(iv is not None and iv[0] == "pend" for iv in cur):
                    undecided = True
                    break
                if c is not None and c.op in ("icmp", "fcmp"):
                    for a, b, sw in ((c.ops[0], c.ops[1], False), (c.ops[1], c.ops[0], True)):
                        src = F.defs.get(a) if is_local(a) else None
                        if src is not None and src.op in ("sitofp", "uitofp", "sext", "zext"):
                            src = F.defs.get(src.ops[0])
                        if src is not None and src.op == "load" and src.ops[0] == tgt:
                            cv = number(b)
                            p = c.x["pred"]
                            p = p if p in ("eq", "ne") else p[1:]
                            if cv is None or src.res not in loads or p not in NEG:
                                undecided = True
                            else:
                                cmpd = (MIRROR[p] if sw else p, cv)
                if cmpd is None and c is not None and depends(F, c, tgt):
                    undecided = True
                a, b = t.x["t"], t.x["f"]
                if cmpd:
                    succ[a] = {x for x in (iv if iv is None else refine(iv, cmpd[0], cmpd[1], fp) for iv in cur) if x != ()}
                    succ[b] = succ.get(b, set()) | {x for x in (iv if iv is None else refine(iv, NEG[cmpd[0]], cmpd[1], fp) for iv in cur)
                                                    if x != ()}
                else:
                    succ[a] = succ[b] = cur
            else:
                for x in blk.succs:
                    succ[x] = cur
            for x, st in succ.items():
                push(x, st)
        if undecided or not nsink:
            ck.count("ranges_undecided")
            continue
        ck.count("ranges")
        for u, iv in bad.items():
            ck.violation("range:%s" % k, P.where(u), "the option '%s' can be used with the value %s, which is outside its range "
                         "[%s, %s]" % (k, iv[0] if not RANGE[k][0] <= iv[0] <= RANGE[k][1] else iv[1], *RANGE[k]))
        consts = {number(i.ops[0]) for i in F.instrs() if i.op == "store" and i.ops[1] == tgt}
        if len(consts) > 1:
            ck.violation("twodefaults:%s" % k, P.where(call), "the option '%s' has several default values: %s" %
                         (k, ", ".join(map(str, sorted(consts)))))


def depends(F, d, tgt, n=0):
    if d is None or n > 6:
        return False
    if d.op == "load":
        return d.ops[0] == tgt
    return any(depends(F, F.defs.get(o), tgt, n + 1) for o in d.ops if is_local(o))


def sinks(P, F, v, n=0):
    """uses of a value that put it to work: stored in a field or handed to a function that is not a message"""
    out = []
    for u in F.users().get(v, ()):
        if u.op == "store" and u.ops[0] == v:
            out.append(u)
        elif u.op == "call" and (P.callee(u) or "").startswith("coco_") and P.callee(u) not in (
                "coco_warning", "coco_info", "coco_debug", "coco_error", "coco_info_partial"):
            out.append(u)
        elif u.op in ("sext", "zext", "trunc", "sitofp", "uitofp") and n < 4:
            out += sinks(P, F, u.res, n + 1)
    return out


@rule("C14",
      "constant propagation of option keys, interprocedural value flow from the option to the fields it sets, and "
      "path-sensitive typestate of option targets",
      "The keys each options text is searched for are compared with the list of valid keys announced for it; no key "
      "contains another (they are searched as texts); results of the text search are only compared in ways that accept "
      "position 0; the value of an option flows into the field of its name, and every field fed by an option is read "
      "somewhere; when an option is absent its target has been or is then set.",
      ["options are looked up with the coco_options_read family"])
def c14(ck):
    P = ck.P
    R = reads(P)
    T_all.clear()
    for F, i, T, B, opt, tgt in R:
        T_all.update(T)
    keys(ck, P, R)
    positions(ck, P)
    precedence(ck, P, R)
    effects(ck, P, R)
    defaults(ck, P, R)
    ranges(ck, P, R)
    ck.need("options", 8)
