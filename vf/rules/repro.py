"""C21: diagnostics (assertions, log level) never change results; C22: problem construction is reproducible."""
import re
from collections import Counter
from .. import build, ir
from ..check import rule
from ..core import Program, is_local
from ..core import dominators as _dominators, dominates as _dominates
from ..esp import noreturn_set
from ..flow import Summaries, ext_name
from ..util import allocators

PURE = {"strlen", "strcmp", "strncmp", "strstr", "strchr", "strrchr", "fabs", "sqrt", "pow", "exp", "log", "sin", "cos",
        "tan", "tanh", "atan", "floor", "ceil", "round", "fmod", "log10", "log2", "log1p", "expm1", "cosh", "sinh",
        "acos", "asin", "atan2", "isspace", "isdigit", "isalpha", "isalnum", "tolower", "toupper", "atoi", "atof", "atol",
        "strcspn", "strspn", "strpbrk", "memcmp", "memchr", "abs", "labs", "fmin", "fmax", "hypot", "cbrt", "exp2",
        "__ctype_b_loc", "__errno_location", "strerror", "difftime", "copysign", "trunc", "lround", "rint", "nearbyint",
        "lgamma", "tgamma", "erf", "strcasecmp", "isnan", "isinf", "isfinite", "__isnan", "__isinf", "__finite",
        "__fpclassify", "__isnan", "ldexp", "remainder", "fdim", "fma", "nan", "localtime", "gmtime", "asctime", "ctime"}
LOCALW = {"sprintf", "snprintf", "vsprintf", "vsnprintf", "strcpy", "strncpy", "strcat", "strncat", "memcpy", "memset",
          "memmove", "strftime", "sscanf", "strtol", "strtod", "strtoul", "strtoull", "qsort", "frexp", "modf", "time",
          "localtime_r"}
NONDET = {"time", "clock", "rand", "random", "drand48", "rand_r", "getpid", "getppid", "gettimeofday", "clock_gettime",
          "getenv", "localtime", "gmtime", "times", "getcwd", "gethostname", "srand", "srandom", "lrand48", "erand48",
          "getrandom", "arc4random", "tmpnam", "mktime", "ctime", "asctime"}
STD = ("stdout", "stderr")


def dominators(F):
    return _dominators(F)[0]


def dominates(dom, a, b):
    """instruction a is executed before b on every path to b"""
    if a.block is b.block:
        return a.block.instrs.index(a) < a.block.instrs.index(b)
    return _dominates(dom, a.block.name, b.block.name)


class Lasting:
    """instructions with an effect that outlasts the function and is not a message on stdout/stderr"""

    def __init__(self, P, ignore_globals=()):
        self.P = P
        self.S = Summaries(P, deep=True)
        self.alloc = allocators(P)
        self.scratch = scratch_globals(P)
        self.nr = noreturn_set(P)
        self.ignore = set(ignore_globals)
        self.memo = {}

    def local(self, F, v, seen=None):
        """memory that does not outlive the function or that nobody reads before it is rewritten"""
        seen = seen if seen is not None else set()
        if v in ("null", 0):
            return True
        if isinstance(v, str) and (v.startswith("@") or v.startswith("getelementptr")):
            m = re.search(r"@([-\w.$]+)", v)
            return bool(m) and (m.group(1) in self.scratch or m.group(1) in self.ignore)
        if not is_local(v) or v in seen:
            return v in seen
        seen.add(v)
        d = F.defs.get(v)
        if d is None:
            return False
        if d.op == "alloca":
            return True
        if d.op in ("getelementptr", "bitcast"):
            return self.local(F, d.ops[0], seen)
        if d.op in ("phi", "select"):
            return all(self.local(F, o, seen) for o in (d.ops if d.op == "phi" else d.ops[1:]))
        if d.op == "call":
            c = self.P.callee(d)
            return c in self.alloc or ext_name(c or "") in ("localtime", "gmtime", "ctime", "asctime")
        if d.op == "load":
            a = F.defs.get(d.ops[0]) if is_local(d.ops[0]) else None
            if a is not None and a.op == "alloca":
                st = [i for i in F.users().get(d.ops[0], ()) if i.op == "store" and i.ops[1] == d.ops[0]]
                return bool(st) and all(self.local(F, i.ops[0], seen) for i in st)
        return False

    def S0(self, ins, i):
        if not hasattr(self, "_S0"):
            self._S0 = Summaries(self.P, deep=False)
        return self._S0.call_effects(ins, i)

    def std(self, F, v):
        d = F.defs.get(v) if is_local(v) else None
        return d is not None and d.op == "load" and isinstance(d.ops[0], str) and d.ops[0].lstrip("@") in STD

    def bad_instr(self, F, ins, params_ok):
        """description of the lasting effect of ins, or None.  params_ok: stores through parameters are judged at
        the call"""
        P = self.P
        if ins.op == "store":
            if self.local(F, ins.ops[1]):
                return None
            if params_ok and self.rooted_in_param(F, ins.ops[1]):
                return None
            return "a store"
        if ins.op != "call":
            return None
        ts = P.targets(ins)
        if not ts:
            return "an indirect call"
        for t in ts:
            n = ext_name(t)
            if t.startswith("llvm.") and not t.startswith("llvm.mem"):
                continue
            if t in self.nr and t not in P.F:
                continue
            if t in P.F:
                if self.bad_function(t):
                    return "the call of %s()" % t
                for k, a in enumerate(P.args(ins)):
                    e = self.S.get(t, k)
                    for x in ("W", "F", "K"):
                        if x in e and not self.local(F, a) and not (params_ok and self.rooted_in_param(F, a)):
                            return "the call of %s(), which changes its argument" % t
                continue
            if n in PURE:
                continue
            if n in ("malloc", "calloc", "strdup"):
                continue
            if n in ("free", "realloc"):
                if self.local(F, P.args(ins)[0]) or params_ok and self.rooted_in_param(F, P.args(ins)[0]):
                    continue
                return "the release of memory"
            if n in LOCALW:
                bad = False
                for k, a in enumerate(P.args(ins)):
                    if ins.optys[k] == "ptr" and "W" in _ext_w(n, k):
                        if not self.local(F, a) and not (params_ok and self.rooted_in_param(F, a)):
                            bad = True
                if bad:
                    return "the call of %s()" % n
                continue
            if n in ("printf", "puts", "putchar", "vprintf", "perror"):
                continue
            if n in ("fprintf", "vfprintf", "fflush") and self.std(F, P.args(ins)[0]):
                continue
            if n in ("fputs", "fputc", "putc") and self.std(F, P.args(ins)[1]):
                continue
            return "the call of %s()" % n
        return None

    def rooted_in_param(self, F, v, n=0):
        if v in F.argidx:
            return True
        d = F.defs.get(v) if is_local(v) else None
        if d is None or n > 20:
            return False
        if d.op in ("getelementptr", "bitcast", "load"):
            return self.rooted_in_param(F, d.ops[0], n + 1)
        if d.op in ("phi", "select"):
            return all(self.rooted_in_param(F, o, n + 1) or self.local(F, o)
                       for o in (d.ops if d.op == "phi" else d.ops[1:]) if o != v)
        return False

    def bad_function(self, name):
        if name in self.memo:
            return self.memo[name]
        self.memo[name] = None
        F = self.P.F[name]
        for ins in F.instrs():
            b = self.bad_instr(F, ins, True)
            if b:
                self.memo[name] = (ins, b)
                break
        return self.memo[name]


def _ext_w(n, k):
    from ..flow import ext_effect
    return ext_effect(n, k)


def scratch_globals(P):
    """static buffers of one function that are completely rewritten before anything else uses them"""
    out = set()
    use = {}
    for F in P.F.values():
        for ins in F.instrs():
            for n, o in enumerate(ins.ops):
                if isinstance(o, str) and "@" in o:
                    for g in re.findall(r"@([-\w.$]+)", o):
                        if g in P.M.globals:
                            use.setdefault(g, []).append((F, ins, n))
    for g, us in use.items():
        G = P.M.globals[g]
        if G["const"] or not G["internal"] or len(set(F.name for F, _, _ in us)) != 1:
            continue
        F = us[0][0]
        dom = dominators(F)
        firsts = [i for _, i, n in us if (i.op == "call" and n == 0 and ext_name(P.callee(i) or "") in
                                          ("sprintf", "snprintf", "vsprintf", "vsnprintf", "strcpy", "memset")) or
                  (i.op == "store" and n == 1 and i.ops[1] == "@" + g and i.ops[0] != "@" + g)]
        for f in firsts:
            if all(i is f or dominates(dom, f, i) for _, i, _ in us):
                out.add(g)
                break
    return out


def set_before_use(P, g):
    """None if every function that reads global g (or calls a reader) has stored it before on every path;
    else the offending read"""
    readers, stores, addr = {}, {}, []
    for F in P.F.values():
        for ins in F.instrs():
            for n, o in enumerate(ins.ops):
                if o == "@" + g or isinstance(o, str) and o.startswith("getelementptr") and "@%s," % g in o:
                    if ins.op == "store" and n == 1 and o == "@" + g:
                        stores.setdefault(F.name, []).append(ins)
                    else:
                        readers.setdefault(F.name, []).append(ins)
    seen = set()
    work = list(readers)
    while work:
        f = work.pop()
        if f in seen:
            continue
        seen.add(f)
        F = P.F[f]
        dom = dominators(F)
        exposed = [r for r in readers.get(f, ()) if not any(dominates(dom, s, r) for s in stores.get(f, ()))]
        if not exposed:
            continue
        # the reader itself does not set it: every caller / user of its address must have set it before
        us = list(P.callers(f))
        for G in P.F.values():
            for ins in G.instrs():
                if ins.op == "call" and any(a == "@" + f for a in P.args(ins)) and ins not in us:
                    us.append(ins)
        if not us:
            return exposed[0]
        for c in us:
            G = c.block.fn
            d2 = dominators(G)
            if any(dominates(d2, s, c) for s in stores.get(G.name, ())):
                continue
            readers.setdefault(G.name, []).append(c)
            if G.name in seen:
                return c
            work.append(G.name)
            if not P.callers(G.name):
                return c
    return None


def postdoms(F, nr, P):
    """block -> set of blocks that every returning path from it passes"""
    blocks = [b for b in F.reachable_blocks()]
    dead = set()
    for b in blocks:
        for i in F.blocks[b].instrs:
            if i.op == "call" and P.callee(i) in nr:
                dead.add(b)
        if F.blocks[b].term.op == "unreachable":
            dead.add(b)
    # blocks from which no return is reachable are ignored
    full = set(blocks)
    pd = {b: set(full) for b in blocks}
    for b in blocks:
        if F.blocks[b].term.op == "ret":
            pd[b] = {b}
    ch = True
    while ch:
        ch = False
        for b in reversed(blocks):
            if F.blocks[b].term.op == "ret":
                continue
            if b in dead:
                continue
            ss = [s for s in F.blocks[b].succs if s not in dead]
            n = set(full)
            for s in ss:
                n &= pd[s]
            n = n | {b} if ss else set(full)
            if n != pd[b]:
                pd[b] = n
                ch = True
    return pd


def region(F, b, pd):
    """blocks whose execution depends on the outcome of the branch that ends b"""
    stop = pd[b] - {b}
    out, st = set(), [s for s in F.blocks[b].succs]
    while st:
        x = st.pop()
        if x in out or x in stop or x not in pd:
            continue
        out.add(x)
        if x == b:
            continue
        st.extend(F.blocks[x].succs)
    out.discard(b)
    return out


def key_loc(P, ins):
    l = P.di.loc(ins.dbg) if ins.dbg else None
    return l


@rule("C21", "differential effect comparison of the assertion-enabled and -disabled IR, and control-dependence (region) "
      "analysis of the log level",
      "(a) The stores, calls, branches and returns of both builds are compared function by function: what exists only "
      "with assertions must be the evaluation of the asserted condition by effect-free code, and nothing may exist "
      "only without. (b) Everything control- or data-dependent on coco_log_level must be without lasting effect "
      "(messages on stdout/stderr, local memory).",
      ["two instructions of the two builds correspond when they have the same source position, kind and callee"])
def c21(ck):
    raw = {}
    for nd in (True, False):
        text, files = build.amalgamate(build.find_core_entries() + ["coco_runtime_c.c"])
        t = build.compile_ir("raw%d" % nd, text, ["-I", build.SRC] + (["-DNDEBUG"] if nd else []), passes="verify")
        raw[nd] = Program(ir.parse_module(t))
    D, R = raw[False], raw[True]
    LD = Lasting(D)
    ck.files = files
    for n in sorted(set(D.F) ^ set(R.F)):
        W = D if n in D.F else R
        if not W.F[n].internal or W is R:
            ck.violation("%s:only" % n, n, "function %s exists only in the build %s assertions" %
                         (n, "with" if W is D else "without"))
        elif LD.bad_function(n):
            ck.violation("%s:only" % n, n, "%s exists only in the build with assertions and has a lasting effect" % n)
    for n in sorted(set(D.F) & set(R.F)):
        FD, FR = D.F[n], R.F[n]
        ck.count("functions_compared")

        def keys(P, F):
            c, ex = Counter(), {}
            for ins in F.instrs():
                if ins.op not in ("store", "call", "ret", "br", "switch"):
                    continue
                if ins.op == "call" and (P.callee(ins) or "").startswith("llvm.dbg"):
                    continue
                l = P.where(ins)
                dl = re.search(r"line: (\d+), column: (\d+)", P.M.md.get(ins.dbg, "") if ins.dbg else "")
                k = (ins.op, dl.groups() if dl else None, l if ins.dbg else None,
                     ins.x.get("callee") if ins.op == "call" and str(ins.x.get("callee", "")).startswith("@") else None)
                if ins.op == "br" and (not ins.dbg or not ins.ops):
                    continue
                c[k] += 1
                ex.setdefault(k, ins)
            return c, ex
        cd, xd = keys(D, FD)
        cr, xr = keys(R, FR)
        asserts = set(k[2] for k in cd if k[0] == "call" and k[3] == "@__assert_fail")
        ck.count("assertions", sum(v for k, v in cd.items() if k[3] == "@__assert_fail"))
        for k in cd - cr:
            ins = xd[k]
            ck.count("debug_only_instructions")
            if ins.op in ("br", "switch"):
                if k[2] not in asserts:
                    ck.violation("%s:debug_branch" % n, D.where(ins), "%s branches differently when assertions are "
                                 "enabled" % n)
            elif ins.op == "store":
                a = FD.defs.get(ins.ops[1]) if is_local(ins.ops[1]) else None
                if a is not None and a.op == "alloca" and ins.ops[1] not in FR.defs:
                    continue
                ck.violation("%s:debug_store" % n, D.where(ins), "an assertion of %s (or code compiled only with "
                             "assertions) assigns a variable: the builds with and without assertions differ" % n)
            elif ins.op == "call":
                if k[3] == "@__assert_fail":
                    continue
                b = LD.bad_instr(FD, ins, False)
                if b:
                    ck.violation("%s:debug_call" % n, D.where(ins), "code of %s that exists only when assertions are "
                                 "enabled has a lasting effect: %s" % (n, b))
            else:
                ck.violation("%s:debug_ret" % n, D.where(ins), "%s returns differently when assertions are enabled" % n)
        for k in cr - cd:
            ins = xr[k]
            ck.violation("%s:release_only" % n, R.where(ins), "%s contains code (%s) that exists only when assertions "
                         "are disabled" % (n, ins.op))
    ck.need("assertions", 20)
    # (b) log level
    P = ck.P
    L = Lasting(P)
    nr = noreturn_set(P)
    lvl = "coco_log_level"
    if lvl not in P.M.globals:
        ck.notes.append("no global coco_log_level")
        return
    taintfn = set()
    setters = set(F.name for F in P.F.values() for i in F.instrs() if i.op == "store" and i.ops[1] == "@" + lvl)
    ch = True
    done = {}
    while ch:
        ch = False
        for F in P.F.values():
            if F.name in setters:
                continue
            T, regs, ret = level_taint(P, F, lvl, taintfn, nr)
            done[F.name] = (T, regs)
            if ret and F.name not in taintfn:
                taintfn.add(F.name)
                ch = True
    for n, (T, regs) in sorted(done.items()):
        F = P.F[n]
        if not T:
            continue
        ck.count("functions_reading_the_log_level")
        for b, reg in regs:
            ck.count("log_level_branches")
            ck.sample("%s: branch at %s guards %d block(s)" % (n, P.where(F.blocks[b].term), len(reg)))
            for x in reg:
                for ins in F.blocks[x].instrs:
                    ck.count("guarded_instructions")
                    if ins.op == "ret" :
                        w = "a return" if ins.ops else None
                    else:
                        w = L.bad_instr(F, ins, False)
                    if w:
                        ck.violation("%s:loglevel" % n, P.where(ins), "%s in %s happens only for some log levels: the "
                                     "verbosity changes what the library does" % (w, n), [P.where(F.blocks[b].term)])
        for v in T:
            for u in F.users().get(v, ()):
                if u.op == "store" and u.ops[0] == v and not L.local(F, u.ops[1]):
                    ck.violation("%s:loglevel_value" % n, P.where(u), "%s stores a value that depends on the log level" % n)
                elif u.op == "call" and any(a == v for a in P.args(u)) and L.bad_instr(F, u, False):
                    ck.violation("%s:loglevel_arg" % n, P.where(u), "%s passes a value that depends on the log level to a "
                                 "call with a lasting effect" % n)
    for n in sorted(taintfn):
        if not P.F[n].internal:
            ck.violation("%s:loglevel_ret" % n, n, "the result of %s() depends on the log level" % n)
    ck.need("log_level_branches", 3)


def level_taint(P, F, lvl, taintfn, nr):
    T, regs, ret = set(), [], False
    pd = None
    ch = True
    seenb = set()
    while ch:
        ch = False
        for ins in F.instrs():
            if ins.op in ("br", "switch"):
                if ins.ops and ins.ops[0] in T and ins.block.name not in seenb and len(set(ins.block.succs)) > 1:
                    pd = pd or postdoms(F, nr, P)
                    seenb.add(ins.block.name)
                    reg = region(F, ins.block.name, pd)
                    regs.append((ins.block.name, reg))
                    ch = True
                    # phis that join the two outcomes
                    for b in F.blocks.values():
                        if b.name in reg:
                            continue
                        if not any(p in reg or p == ins.block.name for p in [q for q in b.preds]):
                            continue
                        for i in b.instrs:
                            if i.op == "phi" and i.res not in T:
                                T.add(i.res)
                continue
            if not ins.res or ins.res in T:
                continue
            t = False
            if ins.op == "load":
                t = ins.ops[0] == "@" + lvl
                a = F.defs.get(ins.ops[0]) if is_local(ins.ops[0]) else None
                if a is not None and a.op == "alloca":
                    t = t or any(u.op == "store" and u.ops[1] == ins.ops[0] and u.ops[0] in T
                                 for u in F.users().get(ins.ops[0], ()))
            elif ins.op == "call":
                t = P.callee(ins) in taintfn
            else:
                t = any(is_local(o) and o in T for o in ins.ops)
            if t:
                T.add(ins.res)
                ch = True
    for ins in F.instrs():
        if ins.op == "ret" and ins.ops and ins.ops[0] in T:
            ret = True
    return T, regs, ret


SUITE = "struct.coco_suite_s"
MSG_ONLY = {"stdout", "stderr", "coco_log_level"}


def on_stack(F, v):
    d = F.defs.get(v) if is_local(v) else None
    while d is not None and d.op == "getelementptr":
        d = F.defs.get(d.ops[0]) if is_local(d.ops[0]) else None
    return d is not None and d.op == "alloca"


def nondet_flow(P, F, sources, L):
    """(taint reaches the return value, [(instr, text)] uses of a nondeterministic value other than messages)"""
    T, cells = set(), set()
    bad = []
    ret = False
    from .strings import Formats
    fm = P.__dict__.setdefault("_formats", None) or Formats(P)
    P._formats = fm
    ch = True
    while ch:
        ch = False
        for ins in F.instrs():
            src = False
            if ins.op == "call":
                ts = P.targets(ins)
                src = bool(ts & sources) or any(ext_name(t) in NONDET for t in ts)
                tainted_arg = any(is_local(a) and (a in T or a in cells) for a in P.args(ins))
                if src or tainted_arg:
                    if ins.res and ins.res not in T:
                        T.add(ins.res)
                        ch = True
                    for k, a in enumerate(P.args(ins)):
                        if not is_local(a):
                            continue
                        d = F.defs.get(a)
                        base = a
                        while d is not None and d.op == "getelementptr":
                            base = d.ops[0]
                            d = F.defs.get(base) if is_local(base) else None
                        w = any("W" in _ext_w(t, k) for t in ts if t not in P.F) or \
                            any("W" in L.S.get(t, k) for t in ts if t in P.F)
                        if w and (d is not None and (d.op == "alloca" or d.op == "call" and P.callee(d) in L.alloc)):
                            for x in (a, base):
                                if x not in cells:
                                    cells.add(x)
                                    ch = True
                continue
            t = False
            if ins.op == "load":
                t = ins.ops[0] in cells
            elif ins.op == "getelementptr":
                if ins.ops[0] in cells and ins.res not in cells:
                    cells.add(ins.res)
                    ch = True
                t = any(is_local(o) and o in T for o in ins.ops)
            elif ins.op == "store":
                if is_local(ins.ops[0]) and ins.ops[0] in T:
                    d = F.defs.get(ins.ops[1]) if is_local(ins.ops[1]) else None
                    if d is not None and d.op == "alloca" and ins.ops[1] not in cells:
                        cells.add(ins.ops[1])
                        ch = True
                continue
            else:
                t = any(is_local(o) and (o in T) for o in ins.ops)
            if t and ins.res and ins.res not in T:
                T.add(ins.res)
                ch = True
    for ins in F.instrs():
        if ins.op == "store" and is_local(ins.ops[0]) and (ins.ops[0] in T or ins.ops[0] in cells) and \
                not on_stack(F, ins.ops[1]):
            bad.append((ins, "is stored"))
        elif ins.op in ("br", "switch") and ins.ops and ins.ops[0] in T:
            bad.append((ins, "decides a branch"))
        elif ins.op == "ret" and ins.ops and (ins.ops[0] in T or ins.ops[0] in cells):
            ret = True
        elif ins.op == "call":
            ts = P.targets(ins)
            if ts & sources or any(ext_name(t) in NONDET for t in ts):
                continue
            if any(is_local(a) and (a in T or a in cells) for a in P.args(ins)):
                for t in ts:
                    n = ext_name(t)
                    if t in P.F and (t in L.alloc or not L.bad_function(t) and
                                     not any("W" in L.S.get(t, k) or "K" in L.S.get(t, k)
                                             for k, a in enumerate(P.args(ins)) if a in T)):
                        continue
                    if n in PURE or n in LOCALW or n in ("free", "malloc", "printf", "fprintf", "puts", "fputs") or \
                            t.startswith("llvm."):
                        continue
                    bad.append((ins, "is passed to %s()" % t))
    return ret, bad


@rule("C22", "whole-program reachability from the problem-creating functions, taint of nondeterministic sources, "
      "set-before-use (dominance) of static variables, and read sets of the suite's iteration state",
      "In the code reachable from the creation of suites and problems (loggers excluded) no value of a clock, the "
      "environment or a random source of the process may reach anything but a message; every static variable it reads "
      "must have been assigned before in the same activation; and code reached from a lookup by index reads no suite "
      "field that is assigned after the suite has been created.",
      ["the contents of the lazily filled table of new bi-objective instances are a function of the instance number",
       "the table of known suites and their data are constants of the source"])
def c22(ck):
    P = ck.P
    from .memoryless import logger_fns, noise_fns, is_constant_global
    L = Lasting(P)
    log = logger_fns(P)
    noise, _ = noise_fns(P)
    obs = set()
    for k, fs in P.slots.items():
        if k[0] == "f" and k[1] == "struct.coco_observer_s":
            obs |= set(fs)
    frees = set()
    for k, fs in P.slots.items():
        if k[0] == "f" and k[2] in ("problem_free_function", "data_free_function"):
            frees |= set(fs)
    roots = [f for f in ("coco_suite", "coco_suite_get_problem", "coco_suite_get_problem_by_function_dimension_instance",
                         "coco_suite_get_next_problem") if f in P.F]
    for f in ("coco_suite", "coco_suite_get_problem"):
        P.func(f)
    stop = log | noise | obs | frees
    E = sorted(f for f in P.reach(roots, stop) if f in P.F)
    ck.count("functions", len(E))
    # 1. nondeterministic sources
    sources = set()
    ch = True
    res = {}
    while ch:
        ch = False
        for f in E:
            F = P.F[f]
            if not any(i.op == "call" and (P.targets(i) & sources or any(ext_name(t) in NONDET for t in P.targets(i)))
                       for i in F.instrs()):
                continue
            r, bad = nondet_flow(P, F, sources, L)
            res[f] = bad
            if r and f not in sources:
                sources.add(f)
                ch = True
    for f in sorted(res):
        ck.count("functions_with_nondeterministic_source")
        ck.sample("%s obtains a clock/environment value; used for messages only" % f)
        for ins, txt in res[f]:
            ck.violation("nondet:%s" % f, P.where(ins), "a value that differs from run to run (clock, environment, process "
                         "random source) %s in %s, which is part of creating a problem" % (txt, f))
    for f in sorted(sources):
        if not P.F[f].internal:
            ck.violation("nondet_ret:%s" % f, f, "the result of %s() differs from run to run" % f)
    # addresses differ from run to run: only differences of pointers into the same object may become numbers
    for f in E:
        F = P.F[f]
        U = None
        for ins in F.instrs():
            if ins.op != "ptrtoint":
                continue
            U = U or F.users()
            ck.count("address_conversions")
            for u in U.get(ins.res, []):
                o = [F.defs.get(x) if is_local(x) else None for x in u.ops]
                if not (u.op == "sub" and all(d is not None and d.op == "ptrtoint" for d in o)):
                    ck.violation("address:%s" % f, P.where(u), "the number an address happens to be is used in %s, which is part "
                                 "of creating a problem: it differs from run to run" % f)
    # 2. static variables
    seen = {}
    for f in E:
        F = P.F[f]
        for ins in F.instrs():
            for n, o in enumerate(ins.ops):
                if not isinstance(o, str) or "@" not in o:
                    continue
                for g in re.findall(r"@([-\w.$]+)", o):
                    if g not in P.M.globals or g in MSG_ONLY or P.M.globals[g]["const"]:
                        continue
                    if ins.op == "store" and n == 1 and o == "@" + g:
                        continue
                    seen.setdefault(g, (f, ins))
    for g, (f, ins) in sorted(seen.items()):
        ck.count("static_variables")
        if is_constant_global(P, g) or g in L.scratch:
            continue
        w = set_before_use(P, g)
        if w is not None:
            ck.violation("static:%s" % g, P.where(w), "creating a problem reads the static variable '%s' (in %s) without "
                         "having set it: the problem depends on earlier calls" % (g, f))
    # 3. iteration state of the suite
    pub = [F.name for F in P.F.values() if not F.internal and F.name not in ("coco_suite", "coco_suite_free")]
    mut = {}
    cons = P.reach(["coco_suite"], stop)
    for f in sorted(P.reach(pub)):
        if f not in P.F:
            continue
        if f in cons and f not in P.reach([p for p in pub if p != "coco_archive"], stop | {"coco_suite"}):
            continue
        F = P.F[f]
        for ins in F.instrs():
            if ins.op == "store":
                k = P.slot_of_addr(F, ins.ops[1])
                if k and k[0] == "f" and k[1] == SUITE:
                    mut.setdefault(k[2], ins)
            elif ins.op == "call":
                for i, a in enumerate(P.args(ins)):
                    k = P.slot_of_addr(F, a) if is_local(a) else None
                    d = F.defs.get(a) if is_local(a) else None
                    if k and k[0] == "f" and k[1] == SUITE and d is not None and d.op == "getelementptr" and \
                            "W" in L.S0(ins, i):
                        mut.setdefault(k[2], ins)
    ck.notes.append("suite fields assigned after creation: " + ", ".join(sorted(mut)))
    look = [f for f in ("coco_suite_get_problem", "coco_suite_get_problem_by_function_dimension_instance") if f in P.F]
    for k, fs in P.slots.items():
        pass
    for f in sorted(P.reach(look, stop)):
        if f not in P.F:
            continue
        F = P.F[f]
        for ins in F.instrs():
            if ins.op == "load":
                k = P.slot_of_addr(F, ins.ops[0])
                if k and k[0] == "f" and k[1] == SUITE:
                    ck.count("suite_fields_read_by_lookup")
                    if k[2] in mut and k[2] != "data":
                        ck.violation("state:%s:%s" % (f, k[2]), P.where(ins), "%s, reached from a lookup by index, reads "
                                     "suite->%s, which changes while the suite is used" % (f, k[2]))
    ck.need("functions", 150)
    ck.need("suite_fields_read_by_lookup", 3)
