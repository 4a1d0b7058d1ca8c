"""Parser and model for the textual LLVM IR produced by build.py (LLVM 18, opaque pointers)."""
import re
from .build import AnalysisError

_SPLIT_OPEN = "([{<"
_SPLIT_CLOSE = ")]}>"


def split_top(s, sep=","):
    out, depth, cur, i, instr = [], 0, [], 0, False
    while i < len(s):
        ch = s[i]
        if instr:
            cur.append(ch)
            if ch == '"':
                instr = False
        elif ch == '"':
            instr = True
            cur.append(ch)
        elif ch in _SPLIT_OPEN:
            depth += 1
            cur.append(ch)
        elif ch in _SPLIT_CLOSE:
            depth -= 1
            cur.append(ch)
        elif ch == sep and depth == 0:
            out.append("".join(cur).strip())
            cur = []
        else:
            cur.append(ch)
        i += 1
    t = "".join(cur).strip()
    if t:
        out.append(t)
    return out


class Instr:
    __slots__ = ("op", "res", "ty", "ops", "optys", "dbg", "block", "idx", "x", "fn", "origin")

    def __init__(self, op, res=None, ty=None, ops=None, optys=None, x=None, dbg=None):
        self.op, self.res, self.ty, self.ops, self.optys, self.x, self.dbg = op, res, ty, ops or [], optys or [], x, dbg
        self.block = None
        self.idx = -1
        self.fn = None
        self.origin = None

    def clone(self):
        n = Instr(self.op, self.res, self.ty, list(self.ops), list(self.optys), self.x, self.dbg)
        n.origin = self.origin or self
        return n

    def __repr__(self):
        return "<%s %s %s %s>" % (self.res, self.op, self.ty, self.ops)


class Block:
    __slots__ = ("name", "instrs", "succs", "preds", "fn")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.instrs, self.succs, self.preds = [], [], []

    @property
    def term(self):
        return self.instrs[-1]

    def __repr__(self):
        return "<bb %s>" % self.name


class Function:
    def __init__(self, name, retty, params, internal, dbg, vararg, module):
        self.name, self.retty, self.params, self.internal, self.dbg, self.vararg = name, retty, params, internal, dbg, vararg
        self.blocks = {}
        self.order = []
        self.module = module
        self.defs = {}
        self.argidx = {p[1]: i for i, p in enumerate(params)}
        self.dbgvals = {}      # ssa value -> list of (var name, di type id)

    def entry(self):
        return self.blocks[self.order[0]]

    def finish(self):
        self._ec = {}
        self._loops = None
        self.defs = {}
        for bn in self.order:
            b = self.blocks[bn]
            b.preds = []
        for bn in self.order:
            b = self.blocks[bn]
            b.succs = []
            for i, ins in enumerate(b.instrs):
                ins.block, ins.idx, ins.fn = b, i, self
                if ins.res:
                    self.defs[ins.res] = ins
            t = b.term
            if t.op == "br":
                tg = [t.x["t"]] if "c" not in t.x else [t.x["t"], t.x["f"]]
            elif t.op == "switch":
                tg = [t.x["default"]] + [c[1] for c in t.x["cases"]]
            else:
                tg = []
            for x in tg:
                b.succs.append(x)
        for bn in self.order:
            for s in self.blocks[bn].succs:
                self.blocks[s].preds.append(bn)
        return self

    def instrs(self):
        for bn in self.order:
            for i in self.blocks[bn].instrs:
                yield i

    def users(self):
        u = {}
        for i in self.instrs():
            for o in i.ops:
                if isinstance(o, str) and o.startswith("%"):
                    u.setdefault(o, []).append(i)
        return u

    def reachable_blocks(self):
        seen, st = set(), [self.order[0]]
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            st.extend(self.blocks[b].succs)
        return seen


class Module:
    def __init__(self):
        self.functions, self.decls, self.globals, self.types, self.md = {}, {}, {}, {}, {}
        self.strings = {}


_PARAM_ATTR = re.compile(
    r"\b(noundef|nonnull|nocapture|readonly|readnone|writeonly|returned|noalias|signext|zeroext|immarg|inreg|nofree|"
    r"dead_on_unwind|writable|allocptr|allocalign|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|align \d+|"
    r"byval\([^)]*\)|sret\([^)]*\)|captures\([^)]*\))\s*")


def _unesc(s):
    return re.sub(r"\\([0-9A-Fa-f]{2})", lambda m: chr(int(m.group(1), 16)), s)


def split_typed(s):
    """'ptr noundef %x' -> ('ptr', '%x');  'i64 3' -> ('i64', 3)"""
    s = _PARAM_ATTR.sub("", s).strip()
    # type is the first token (handle <..>, [..], {..}, %struct)
    if not s:
        return None, None
    if s[0] in "[{<":
        depth = 0
        for i, ch in enumerate(s):
            if ch in "[{<":
                depth += 1
            elif ch in "]}>":
                depth -= 1
                if depth == 0:
                    break
        ty, rest = s[:i + 1], s[i + 1:].strip()
    else:
        m = re.match(r'(%"[^"]+"|\S+)\s*(.*)$', s, re.S)
        ty, rest = m.group(1), m.group(2).strip()
    return ty, value(rest)


def value(t):
    t = t.strip()
    if re.fullmatch(r"-?\d+", t):
        return int(t)
    if t == "true":
        return 1
    if t == "false":
        return 0
    return t


CASTS = {"trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint", "inttoptr",
         "bitcast", "addrspacecast"}
BINS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub",
        "fmul", "fdiv", "frem"}
_FLAGS = re.compile(r"^(?:nuw|nsw|exact|inbounds|disjoint|nneg|fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|volatile|"
                    r"inrange|samesign)\s+")


def strip_flags(s):
    while True:
        m = _FLAGS.match(s)
        if not m:
            return s
        s = s[m.end():]


def strip_meta(s):
    """remove trailing ', !foo !12' metadata and return (text, dbg)"""
    dbg = None
    parts = split_top(s)
    keep = []
    for p in parts:
        m = re.match(r"^!(\S+)\s+(!\S+)$", p)
        if m:
            if m.group(1) == "dbg":
                dbg = m.group(2)
            continue
        if re.match(r"^align \d+$", p):
            continue
        keep.append(p)
    return keep, dbg


def parse_call_args(argstr):
    tys, vals = [], []
    for a in split_top(argstr):
        if a.startswith("metadata"):
            tys.append("metadata")
            vals.append(a[8:].strip())
            continue
        t, v = split_typed(a)
        tys.append(t)
        vals.append(v)
    return tys, vals


_CALL = re.compile(r"^(?:tail |musttail |notail )?call\s+(.*)$", re.S)


def _find_args(s):
    """s = 'void @f(args) #3' or 'i32 (ptr, ...) @f(args)' ; return (rettype, callee, argstr)"""
    # last top-level parenthesised group preceded by callee token
    i = len(s) - 1
    j = s.rfind(")")
    depth = 0
    k = j
    instr = False
    while k >= 0:
        ch = s[k]
        if ch == '"':
            instr = not instr
        elif not instr:
            if ch == ")":
                depth += 1
            elif ch == "(":
                depth -= 1
                if depth == 0:
                    break
        k -= 1
    argstr = s[k + 1:j]
    head = s[:k].strip()
    m = re.match(r'^(.*?)([@%](?:"[^"]+"|[-\w.$]+)|asm .*)$', head, re.S)
    if not m:
        raise AnalysisError("cannot parse call: " + s)
    return m.group(1).strip(), m.group(2), argstr


def parse_instr(line):
    s = line.strip()
    res = None
    m = re.match(r'^(%(?:"[^"]+"|[-\w.$]+)) = (.*)$', s, re.S)
    if m:
        res, s = m.group(1), m.group(2)
    op = s.split(" ", 1)[0].rstrip(",")
    if op in ("tail", "musttail", "notail"):
        op = "call"
    rest = s[len(op):].lstrip(", ").strip() if op != "call" else s
    if op == "call":
        # strip trailing metadata
        dbg = None
        mm = re.search(r", !dbg (!\d+)", s)
        if mm:
            dbg = mm.group(1)
        core = re.sub(r"(, ![\w.]+ ![\w]+)+\s*$", "", s)
        core = _CALL.match(core).group(1)
        core = strip_flags(core)
        core = re.sub(r"\)\s*#\d+\s*$", ")", core)
        core = re.sub(r"\)\s*\[[^\]]*\]\s*$", ")", core)
        rty, callee, argstr = _find_args(core)
        rty = _PARAM_ATTR.sub("", rty).strip()
        rty = re.sub(r"\s*\(.*\)$", "", rty) or "void"
        tys, vals = parse_call_args(argstr)
        return Instr("call", res, rty, vals + [callee], tys + ["ptr"], {"callee": callee, "n": len(vals)}, dbg)
    rest = strip_flags(rest)
    if op == "phi":
        parts, dbg = strip_meta(rest)
        first = parts[0]
        m = re.match(r'^(.*?)\s*(\[.*\])$', first, re.S)
        ty = m.group(1).strip()
        pl = [m.group(2)] + parts[1:]
        # type may be an array/struct type beginning with '[' - not produced for phis here
        vals, bbs = [], []
        for p in pl:
            a, b = split_top(p.strip()[1:-1])
            vals.append(value(a))
            bbs.append(b.strip()[1:].strip('"'))
        return Instr("phi", res, ty, vals, [ty] * len(vals), {"bbs": bbs}, dbg)
    if op == "br":
        parts, dbg = strip_meta(rest)
        if parts[0].startswith("label"):
            return Instr("br", None, None, [], [], {"t": parts[0][6:].strip()[1:].strip('"')}, dbg)
        t, c = split_typed(parts[0])
        return Instr("br", None, None, [c], [t], {"c": c, "t": parts[1][6:].strip()[1:].strip('"'),
                                                  "f": parts[2][6:].strip()[1:].strip('"')}, dbg)
    if op == "switch":
        mm = re.search(r"!dbg (!\d+)", rest)
        m = re.match(r"^(\S+) (\S+), label %(\S+) \[(.*)\]", rest, re.S)
        cases = [(int(a), b.strip('"')) for a, b in re.findall(r"\S+ (-?\d+), label %(\S+)", m.group(4))]
        return Instr("switch", None, None, [value(m.group(2))], [m.group(1)],
                     {"default": m.group(3).strip('"'), "cases": cases}, mm.group(1) if mm else None)
    parts, dbg = strip_meta(rest)
    if op == "ret":
        if parts[0] == "void":
            return Instr("ret", None, None, [], [], None, dbg)
        t, v = split_typed(parts[0])
        return Instr("ret", None, None, [v], [t], None, dbg)
    if op == "unreachable":
        return Instr("unreachable", None, None, [], [], None, dbg)
    if op == "load":
        p0 = strip_flags(parts[0])
        t, v = split_typed(parts[1])
        return Instr("load", res, p0, [v], ["ptr"], None, dbg)
    if op == "store":
        t, v = split_typed(strip_flags(parts[0]))
        _, p = split_typed(parts[1])
        return Instr("store", None, None, [v, p], [t, "ptr"], None, dbg)
    if op == "getelementptr":
        sty = strip_flags(parts[0])
        vals, tys = [], []
        for p in parts[1:]:
            t, v = split_typed(p)
            vals.append(v)
            tys.append(t)
        return Instr("getelementptr", res, "ptr", vals, tys, {"sty": sty}, dbg)
    if op in CASTS:
        m = re.match(r"^(.*) to (.*)$", parts[0], re.S)
        t, v = split_typed(strip_flags(m.group(1)))
        return Instr(op, res, m.group(2).strip(), [v], [t], None, dbg)
    if op in BINS:
        t, v = split_typed(parts[0])
        return Instr(op, res, t, [v, value(parts[1])], [t, t], None, dbg)
    if op in ("icmp", "fcmp"):
        first = strip_flags(parts[0])
        pred, r = first.split(" ", 1)
        t, v = split_typed(r)
        return Instr(op, res, "i1", [v, value(parts[1])], [t, t], {"pred": pred}, dbg)
    if op == "fneg":
        t, v = split_typed(parts[0])
        return Instr(op, res, t, [v], [t], None, dbg)
    if op == "select":
        tv = [split_typed(p) for p in parts]
        return Instr(op, res, tv[1][0], [x[1] for x in tv], [x[0] for x in tv], None, dbg)
    if op == "alloca":
        ty = parts[0]
        n = 1
        if len(parts) > 1:
            n = split_typed(parts[1])[1]
        return Instr(op, res, "ptr", [], [], {"aty": ty, "n": n}, dbg)
    if op == "freeze":
        t, v = split_typed(parts[0])
        return Instr(op, res, t, [v], [t], None, dbg)
    # anything else: keep operands opaque
    vals, tys = [], []
    for p in parts:
        t, v = split_typed(p)
        vals.append(v)
        tys.append(t)
    return Instr(op, res, tys[0] if tys else None, vals, tys, {"raw": s}, dbg)


def parse_module(text):
    M = Module()
    lines = text.split("\n")
    i, n = 0, len(lines)
    while i < n:
        l = lines[i]
        if l.startswith("%") and " = type " in l:
            m = re.match(r'^%("?[^" ]+"?) = type (.*)$', l)
            body = m.group(2).strip()
            if body.startswith("{"):
                M.types[m.group(1).strip('"')] = split_top(body[1:-1].strip())
            else:
                M.types[m.group(1).strip('"')] = None
        elif l.startswith("@"):
            m = re.match(r'^@("[^"]+"|[-\w.$]+) = (.*)$', l)
            nm, body = m.group(1).strip('"'), m.group(2)
            const = re.search(r"\bconstant\b", body.split('c"')[0]) is not None
            ext = body.startswith("external")
            M.globals[nm] = {"const": const, "body": body, "ext": ext, "private": body.startswith("private"),
                             "internal": body.startswith("internal")}
            mm = re.search(r'constant \[\d+ x i8\] c"((?:[^"\\]|\\.)*)"', body)
            if mm:
                s = _unesc(mm.group(1))
                M.strings[nm] = s[:-1] if s.endswith("\0") else s
            elif re.search(r"constant \[1 x i8\] zeroinitializer", body):
                M.strings[nm] = ""
        elif l.startswith("declare"):
            m = re.search(r'@("[^"]+"|[-\w.$]+)\(', l)
            M.decls[m.group(1).strip('"')] = l
        elif l.startswith("define"):
            m = re.match(r'^define (.*?)@("[^"]+"|[-\w.$]+)\((.*)\)(.*)\{\s*$', l)
            head, nm, params, tail = m.group(1), m.group(2).strip('"'), m.group(3), m.group(4)
            # params may swallow attributes parentheses: re-split carefully
            k = l.index("@" + m.group(2) + "(") + len(m.group(2)) + 2
            depth, j = 1, k
            while depth:
                if l[j] == "(":
                    depth += 1
                elif l[j] == ")":
                    depth -= 1
                j += 1
            params, tail = l[k:j - 1], l[j:]
            ps, va = [], False
            for p in split_top(params):
                if p == "...":
                    va = True
                    continue
                t, v = split_typed(p)
                ps.append((t, v))
            hw = _PARAM_ATTR.sub("", head).split()
            internal = "internal" in hw
            retty = hw[-1]
            dm = re.search(r"!dbg (!\d+)", tail)
            F = Function(nm, retty, ps, internal, dm.group(1) if dm else None, va, M)
            i += 1
            cur = None
            while lines[i] != "}":
                s = lines[i]
                if not s.strip() or s.lstrip().startswith(";"):
                    i += 1
                    continue
                if not s.startswith(" "):
                    bm = re.match(r'^("[^"]+"|[-\w.$]+):', s)
                    cur = Block(bm.group(1).strip('"'), F)
                    F.blocks[cur.name] = cur
                    F.order.append(cur.name)
                    i += 1
                    continue
                if cur is None:
                    cur = Block("entry0", F)
                    F.blocks[cur.name] = cur
                    F.order.append(cur.name)
                st = s.strip()
                if st.startswith("switch ") and "]" not in st.split("[")[-1]:
                    while not lines[i].strip().startswith("]"):
                        i += 1
                        st += " " + lines[i].strip()
                if "@llvm.dbg." in st:
                    _dbg(F, st)
                    i += 1
                    continue
                if "@llvm.lifetime" in st:
                    i += 1
                    continue
                ins = parse_instr(st)
                cur.instrs.append(ins)
                i += 1
            M.functions[nm] = F
        elif l.startswith("!"):
            m = re.match(r"^(![\w.]+) = (.*)$", l)
            if m:
                M.md[m.group(1)] = m.group(2)
        i += 1
    for F in M.functions.values():
        F.finish()
    M.di = DebugInfo(M)
    return M


def _dbg(F, st):
    m = re.search(r"@llvm\.dbg\.(value|declare)\(metadata (.*?), metadata (![0-9]+), metadata", st)
    if not m:
        return
    t, v = split_typed(m.group(2)) if not m.group(2).startswith("!") else (None, None)
    if isinstance(v, str) and v.startswith("%"):
        F.dbgvals.setdefault(v, [])
        if (m.group(1), m.group(3)) not in F.dbgvals[v]:
            F.dbgvals[v].append((m.group(1), m.group(3)))


class DebugInfo:
    """Struct field names/types and source positions from the debug metadata."""

    def __init__(self, M):
        self.M = M
        self.fields = {}        # IR struct name -> [(field name, di type id)]
        self.locs = {}
        self.files = {}
        self._typedef_of = {}
        md = M.md
        self.attr_cache = {}
        byname = {}
        for k, b in md.items():
            if "!DICompositeType(tag: DW_TAG_structure_type" in b:
                nm = self.attr(k, "name")
                if nm and "elements" in b:
                    byname["struct." + nm] = k
            elif "!DIDerivedType(tag: DW_TAG_typedef" in b:
                nm, bt = self.attr(k, "name"), self.attr(k, "baseType")
                if bt and bt in md and "DW_TAG_structure_type" in md[bt] and self.attr(bt, "name") is None:
                    byname["struct." + nm] = bt
                    self._typedef_of[bt] = nm
        self.structs = byname
        for sn, k in byname.items():
            el = self.attr(k, "elements")
            fl = []
            if el and el in md:
                for e in re.findall(r"!\d+", md[el]):
                    fl.append((self.attr(e, "name"), self.attr(e, "baseType")))
            self.fields[sn] = fl

    def attr(self, k, name):
        b = self.M.md.get(k, "")
        m = re.search(r"\b%s: (?:\"((?:[^\"\\]|\\.)*)\"|([^,)]+))" % name, b)
        if not m:
            return None
        return m.group(1) if m.group(1) is not None else m.group(2)

    def field(self, sty, idx):
        s = sty.lstrip("%").strip('"')
        fl = self.fields.get(s)
        if fl and isinstance(idx, int) and idx < len(fl):
            return fl[idx][0]
        return "#%s" % idx

    def strip(self, k):
        """strip typedef/const/volatile; returns di id (or None for void)"""
        while k and k in self.M.md:
            b = self.M.md[k]
            if "tag: DW_TAG_typedef" in b or "tag: DW_TAG_const_type" in b or "tag: DW_TAG_volatile_type" in b or \
                    "tag: DW_TAG_restrict_type" in b:
                k = self.attr(k, "baseType")
                if k == "null":
                    return None
                continue
            return k
        return None

    def is_const(self, k):
        while k and k in self.M.md:
            b = self.M.md[k]
            if "tag: DW_TAG_const_type" in b:
                return True
            if "tag: DW_TAG_typedef" in b:
                k = self.attr(k, "baseType")
                continue
            return False
        return False

    def pointee(self, k):
        k = self.strip(k)
        if k and "tag: DW_TAG_pointer_type" in self.M.md[k]:
            return self.attr(k, "baseType") or "void"
        return None

    def struct_of(self, k):
        """IR struct name of a DI type (after stripping), or None"""
        k0 = self.strip(k)
        if not k0:
            return None
        b = self.M.md[k0]
        if "DW_TAG_structure_type" in b:
            nm = self.attr(k0, "name") or self._typedef_of.get(k0)
            return "struct." + nm if nm else None
        return None

    def basename(self, k):
        k0 = self.strip(k)
        if not k0:
            return "void"
        b = self.M.md[k0]
        if "DW_TAG_pointer_type" in b:
            return self.basename(self.attr(k0, "baseType")) + "*"
        return self.attr(k0, "name") or "?"

    def fn_types(self, F):
        """[ret, arg...] DI type ids of a function"""
        if not F.dbg:
            return None
        t = self.attr(F.dbg, "type")
        tl = self.attr(t, "types")
        body = self.M.md.get(tl, "")
        body = body[body.find("{") + 1: body.rfind("}")]
        return [x.strip() if x.strip() != "null" else None for x in body.split(",")]

    def loc(self, dbg):
        """(file, line, subprogram id) of a !dbg reference, following inlinedAt never"""
        if dbg in self.locs:
            return self.locs[dbg]
        b = self.M.md.get(dbg, "")
        r = (None, 0)
        if "DILocation" in b:
            line = int(self.attr(dbg, "line") or 0)
            sc = self.attr(dbg, "scope")
            r = (self._file(sc), line)
        elif "DISubprogram" in b:
            r = (self._file(dbg), int(self.attr(dbg, "line") or 0))
        self.locs[dbg] = r
        return r

    def _file(self, sc):
        n = 0
        while sc and n < 50:
            if sc in self.files:
                return self.files[sc]
            f = self.attr(sc, "file")
            if f:
                fn, d = self.attr(f, "filename"), self.attr(f, "directory")
                r = fn if fn.startswith("/") else (d or "") + "/" + fn
                self.files[sc] = r
                return r
            sc = self.attr(sc, "scope")
            n += 1
        return None

    def where(self, ins):
        o = ins.origin or ins
        f, l = self.loc(o.dbg) if o.dbg else (None, 0)
        fn = o.fn.name if o.fn else (ins.fn.name if ins.fn else "?")
        return "%s:%s (%s)" % (f or "?", l, fn)
