"""C17 (format strings) and helpers about text handling."""
import re
from ..check import rule
from ..core import is_local
from ..flow import ext_name

PRINTF = {"printf": 0, "fprintf": 1, "sprintf": 1, "snprintf": 2, "__sprintf_chk": 3, "__snprintf_chk": 4,
          "__fprintf_chk": 2, "__printf_chk": 1}
VPRINTF = {"vprintf": 0, "vfprintf": 1, "vsprintf": 1, "vsnprintf": 2}
SCANF = {"scanf": 0, "__isoc99_scanf": 0, "fscanf": 1, "__isoc99_fscanf": 1, "sscanf": 1, "__isoc99_sscanf": 1,
         "__isoc23_sscanf": 1, "__isoc23_fscanf": 1, "__isoc23_scanf": 1}

CONV = re.compile(r"%([-+ #0']*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|j|z|t|L|q)?([diouxXeEfFgGaAcspn%\[])")


def conversions(fmt, scan=False):
    """list of (expected IR type, text) or None when the format itself is malformed"""
    out, i = [], 0
    while True:
        i = fmt.find("%", i)
        if i < 0:
            return out
        if scan:
            m = re.compile(r"%(\*)?(\d+)?(hh|h|ll|l|j|z|t|L|q)?([diouxXeEfFgGaAcspn%\[])").match(fmt, i)
            if not m:
                return None
            sup, width, ln, c = m.groups()
            i = m.end()
            if c == "[":
                j = i + 1 if fmt[i:i + 1] != "^" else i + 2
                j = fmt.find("]", j)
                if j < 0:
                    return None
                i = j + 1
            if c == "%" or sup:
                continue
            if c in "s[c":
                t = "char*" if not width else "char[%s]" % width
            elif c in "eEfFgGaA":
                t = {"l": "double", "L": "x86_fp80", None: "float"}.get(ln)
            elif c == "p":
                t = "ptr"
            else:
                t = {"hh": "i8", "h": "i16", None: "i32"}.get(ln, "i64")
            out.append((t, m.group(0)))
            continue
        m = CONV.match(fmt, i)
        if not m:
            return None
        fl, w, pr, ln, c = m.groups()
        i = m.end()
        if c == "%":
            continue
        if w == "*":
            out.append(("i32", "*"))
        if pr == "*":
            out.append(("i32", ".*"))
        if c == "[":
            return None
        if c in "eEfFgGaA":
            out.append(("x86_fp80" if ln == "L" else "double", m.group(0)))
        elif c in "spn":
            out.append(("ptr", m.group(0)))
        elif c == "c":
            out.append(("i32", m.group(0)))
        else:
            out.append(("i64" if ln in ("l", "ll", "j", "z", "t", "q") else "i32", m.group(0)))


class Formats:
    def __init__(self, P):
        self.P = P
        self.v = dict(VPRINTF)
        self.p = dict(PRINTF)
        self.s = dict(SCANF)
        changed = True
        while changed:
            changed = False
            for F in P.F.values():
                if F.name in self.v or F.name in self.p:
                    continue
                for ins in F.instrs():
                    if ins.op != "call":
                        continue
                    c = P.callee(ins)
                    if c not in self.v:
                        continue
                    a = P.args(ins)[self.v[c]]
                    if a in F.argidx:
                        (self.p if F.vararg else self.v)[F.name] = F.argidx[a]
                        changed = True
        # macros such as snprintf may be compiled to variants: keep the base names too

    def texts(self, F, v, seen=None):
        """(set of literal formats, list of offending constructs)"""
        P = self.P
        seen = seen if seen is not None else set()
        if (F.name, v) in seen:
            return set(), []
        seen.add((F.name, v))
        s = P.string(v)
        if s is not None:
            return {s}, []
        if isinstance(v, str) and v.startswith("@"):
            return set(), ["the variable %s" % v]
        if not is_local(v):
            return set(), ["%s" % v]
        if v in F.argidx:
            i = F.argidx[v]
            if self.p.get(F.name) == i or self.v.get(F.name) == i:
                return set(), []          # checked at the calls of the wrapper
            cs = P.callers(F.name)
            if not F.internal or not cs:
                return set(), ["parameter %s of %s" % (v.strip("%"), F.name)]
            T, B = set(), []
            for c in cs:
                G = c.block.fn
                t, b = self.texts(G, P.args(c)[i], seen)
                T |= t
                B += ["%s (at %s)" % (x, P.where(c)) for x in b]
            return T, B
        d = F.defs.get(v)
        if d is None:
            return set(), [v]
        if d.op in ("phi", "select"):
            T, B = set(), []
            for o in (d.ops if d.op == "phi" else d.ops[1:]):
                t, b = self.texts(F, o, seen)
                T |= t
                B += b
            return T, B
        if d.op == "load":
            k = P.slot_of_addr(F, d.ops[0])
            if k and k[0] == "g" and d.ops[0] == "@" + k[1]:
                g = P.M.globals.get(k[1])
                T, B = set(), []
                m = re.search(r"(?:global|constant) ptr (@[-\w.$]+)", g["body"]) if g else None
                if m:
                    t, b = self.texts(F, m.group(1), seen)
                    T |= t
                    B += b
                else:
                    B.append("the variable %s" % k[1])
                if g and not g["const"]:
                    if not g["internal"]:
                        B.append("the external variable %s" % k[1])
                    for G in P.F.values():
                        for ins in G.instrs():
                            if ins.op == "store" and ins.ops[1] == "@" + k[1]:
                                t, b = self.texts(G, ins.ops[0], seen)
                                T |= t
                                B += b
                return T, B
            if k and k[0] == "f":
                T, B, n = set(), [], 0
                for G in P.F.values():
                    for ins in G.instrs():
                        if ins.op == "store" and P.slot_of_addr(G, ins.ops[1]) == k:
                            t, b = self.texts(G, ins.ops[0], seen)
                            T |= t
                            B += b
                            n += 1
                if n:
                    return T, B
                return set(), ["field %s" % k[2]]
            if k and k[0] == "g":
                # element of a constant table of strings
                g = P.M.globals.get(k[1])
                if g and g["const"]:
                    T = set()
                    for r in re.findall(r"ptr @([-\w.$]+)", g["body"]):
                        s = P.M.strings.get(r)
                        if s is None:
                            return set(), ["the table %s" % k[1]]
                        T.add(s)
                    if T:
                        return T, []
                return set(), ["the variable %s" % k[1]]
        if d.op == "call":
            c = P.callee(d)
            if c in P.F:
                T, B = set(), []
                for ins in P.F[c].instrs():
                    if ins.op == "ret":
                        t, b = self.texts(P.F[c], ins.ops[0], seen)
                        T |= t
                        B += b
                return T, B
            return set(), ["the result of %s()" % c]
        if d.op == "getelementptr":
            return set(), ["a computed text"]
        return set(), ["a computed text (%s)" % d.op]


def pointee_ty(P, F, v, n=0):
    d = F.defs.get(v) if is_local(v) else None
    if d is None or n > 5:
        return None
    if d.op == "alloca":
        return d.x.get("aty")
    if d.op == "getelementptr":
        S = d.x["sty"]
        if S.startswith("%struct") and len(d.ops) == 3:
            ts = P.M.types.get(S[1:])
            if ts and isinstance(d.ops[2], int) and d.ops[2] < len(ts):
                return ts[d.ops[2]]
            return None
        if len(d.ops) == 2:
            return S
        m = re.match(r"\[\d+ x (.*)\]$", S)
        return m.group(1) if m else None
    return None


@rule("C17", "interprocedural origin analysis of format operands plus type matching of every conversion on LLVM IR",
      "Every call that ends in a printf- or scanf-family function (wrappers are inferred from forwarding their own "
      "format parameter) must take its format from string literals only, and the number and types of the variable "
      "arguments must be those the conversions of each possible literal require.",
      ["LP64 data model (the one of the analysed build)",
       "the signedness of an integer argument is not compared with its conversion (same representation)"])
def c17(ck):
    P = ck.P
    f = Formats(P)
    wr = sorted(n for n in list(f.p) + list(f.v) if n in P.F)
    ck.count("format_wrappers", len(wr))
    ck.notes.append("printf-like functions of the library: " + ", ".join(wr))
    for F in P.F.values():
        for ins in F.instrs():
            if ins.op != "call":
                continue
            c = P.callee(ins)
            scan = c in f.s
            if not (scan or c in f.p or c in f.v):
                continue
            k = f.s[c] if scan else f.p.get(c, f.v.get(c))
            args = P.args(ins)
            if k >= len(args):
                continue
            ck.count("format_calls")
            texts, bad = f.texts(F, args[k])
            bad = [b for b in bad if b != "null"] or bad
            if bad:
                ck.violation("%s:%s:format" % (F.name, c), P.where(ins),
                             "%s() passes %s as format of %s(): a '%%' in it is interpreted" % (F.name, bad[0], c), bad)
                continue
            if c in f.v:
                continue
            have = ins.optys[k + 1:len(args)]
            vals = args[k + 1:]
            for t in sorted(texts):
                ck.count("formats_matched")
                want = conversions(t, scan)
                if want is None:
                    ck.violation("%s:%s:malformed:%s" % (F.name, c, t[:40]), P.where(ins),
                                 "the format \"%s\" of %s() in %s is malformed" % (t, c, F.name))
                    continue
                if len(want) != len(have):
                    ck.violation("%s:%s:count:%s" % (F.name, c, t[:40]), P.where(ins),
                                 "the format \"%s\" of %s() in %s needs %d argument(s) but %d are passed" %
                                 (t, c, F.name, len(want), len(have)))
                    continue
                for (w, txt), h, v in zip(want, have, vals):
                    if scan:
                        if h != "ptr":
                            ok, h2 = False, h
                        else:
                            h2 = pointee_ty(P, F, v)
                            ok = h2 is None or w.startswith("char") or w == "ptr" or h2 == w or w == "i32" and h2 == "i32"
                            if w.startswith("char") and h2 and not re.match(r"\[\d+ x i8\]$|i8$", h2):
                                ok = False
                    else:
                        h2, ok = h, h == w
                    ck.count("arguments_matched")
                    if not ok:
                        ck.violation("%s:%s:type:%s" % (F.name, c, t[:40]), P.where(ins),
                                     "%s() in %s: conversion %s needs an argument of type %s but gets %s (\"%s\")" %
                                     (c, F.name, txt, w, h2, t))
    ck.need("format_calls", 40)
