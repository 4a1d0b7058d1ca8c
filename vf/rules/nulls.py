"""C20: failures are handled where they occur (null results, fatal errors)."""
from ..build import AnalysisError
from ..check import rule
from ..core import is_local, subexprs
from ..esp import explore, noreturn_set
from ..flow import ext_name
from ..util import path_of
from .strings import Formats

# external functions that report failure by a null pointer
EXT_NULL = {"malloc", "calloc", "realloc", "fopen", "opendir", "strdup", "getenv", "strchr", "strrchr", "strstr",
            "strpbrk", "strtok", "localtime", "gmtime", "fgets", "getcwd", "memchr", "fdopen", "tmpfile", "freopen"}
# external functions: arguments that must not be null
EXT_REQ = {"fprintf": (0, 1), "vfprintf": (0, 1), "fclose": (0,), "fflush": (), "fputs": (0, 1), "fputc": (1,),
           "fscanf": (0, 1), "fgets": (0, 2), "fread": (0, 3), "fwrite": (0, 3), "fseek": (0,), "ftell": (0,),
           "strlen": (0,), "strcmp": (0, 1), "strncmp": (0, 1), "strcpy": (0, 1), "strncpy": (0, 1), "strcat": (0, 1),
           "strncat": (0, 1), "strchr": (0,), "strrchr": (0,), "strstr": (0, 1), "memcpy": (0, 1), "memset": (0,),
           "memmove": (0, 1), "sscanf": (0, 1), "sprintf": (0, 1), "snprintf": (2,), "strtol": (0,), "strtoul": (0,),
           "atoi": (0,), "atof": (0,), "printf": (0,), "closedir": (0,), "readdir": (0,), "fgetc": (0,), "feof": (0,),
           "ferror": (0,), "strcspn": (0, 1), "strspn": (0, 1), "strtod": (0,), "qsort": (0,)}


def root(e):
    """pointer a memory address is computed from"""
    while e[0] in ("fld", "idx"):
        e = e[1]
    return e


class Nulls:
    def __init__(self, P):
        self.P = P
        self.nr = noreturn_set(P)
        self._req = {}
        self._may = {}
        self._fu = {}
        self._en = {}
        self.unresolved = []
        self.fm = Formats(P)

    def may_null(self, name):
        """conditions under which the function returns a null pointer: ("always",), ("zero", parameter),
        ("differs", parameter, text)"""
        if name in self._may:
            return self._may[name]
        self._may[name] = frozenset()
        F = self.P.F.get(name)
        if F is None or F.retty != "ptr":
            return frozenset()

        def leaves(v, seen):
            if v in seen:
                return set()
            if not is_local(v):
                return {v}
            seen.add(v)
            d = F.defs.get(v)
            if d is not None and d.op == "phi":
                return set().union(*[leaves(o, seen) for o in d.ops])
            if d is not None and d.op == "select":
                return leaves(d.ops[1], seen) | leaves(d.ops[2], seen)
            return {v}
        srcs = {}
        null = False
        for i in F.instrs():
            if i.op == "ret" and i.ops:
                for v in leaves(i.ops[0], set()):
                    if v in (0, "null"):
                        null = True
                    elif v in F.argidx:
                        srcs[v] = frozenset([("zero", F.argidx[v])])
                    elif is_local(v):
                        d = F.defs.get(v)
                        if d is not None and d.op == "call":
                            c = self.fails(F, d)
                            if c:
                                srcs[v] = c
        out = self.run(F, srcs, want_ret=True) if null or srcs else frozenset()
        self._may[name] = out
        return out

    def fails(self, F, ins):
        """conditions (on the parameters of F) under which this call yields null"""
        P = self.P
        c = P.callee(ins)
        if c is None:
            return frozenset()
        if c not in P.F:
            return frozenset([("always",)]) if ext_name(c) in EXT_NULL else frozenset()
        out = set()
        a = P.args(ins)
        for k in self.may_null(c):
            if k[0] == "always" or k[1] >= len(a):
                out.add(("always",))
                continue
            v = a[k[1]]
            if k[0] == "zero":
                if isinstance(v, int):
                    if v == 0:
                        out.add(("always",))
                elif v == "null":
                    out.add(("always",))
                elif v in F.argidx:
                    out.add(("zero", F.argidx[v]))
                elif is_local(v):
                    d = F.defs.get(v)
                    if d is not None and d.ty in ("i64", "i32"):
                        out.add(("always",))
                    elif d is not None and d.op == "call":
                        out |= self.fails(F, d)
            else:
                T, B = self.fm.texts(F, v)
                if B or T - {k[2]}:
                    out.add(("always",))
        return frozenset(out)

    def exit_conditions(self, F, facts):
        """what the path to a null exit says about the parameters"""
        P = self.P
        for (ty, n), q in zip(F.params, range(len(F.params))):
            e = P.expr(F, n)
            if facts.get(("=", e)) == 0 or facts.get(("eq", e, ("c", 0))) is True:
                return ("zero", q)
        for k, v in facts.items():
            if k[0] == "eq" and k[2] == ("c", 0) and v is False and k[1][0] == "v" and is_local(k[1][1]):
                d = F.defs.get(k[1][1])
                if d is not None and d.op == "call" and P.callee(d) and ext_name(P.callee(d)) == "strcmp":
                    a = P.args(d)
                    for x, y in ((a[0], a[1]), (a[1], a[0])):
                        if x in F.argidx and P.string(y) is not None:
                            return ("differs", F.argidx[x], P.string(y))
        return ("always",)

    def required(self, name, q):
        """is parameter q dereferenced on some path on which it may be null? -> instruction or None"""
        k = (name, q)
        if k in self._req:
            return self._req[k]
        self._req[k] = None
        F = self.P.F[name]
        if q >= len(F.params) or F.params[q][0] != "ptr":
            return None
        v = F.params[q][1]
        bad = []
        self.run(F, {v: "parameter"}, report=lambda src, ins, why, node, R: bad.append((ins, why)), entry=True)
        self._req[k] = bad[0] if bad else None
        return self._req[k]

    def ensures(self, name, q):
        """does the function only return when parameter q is not null?"""
        k = (name, q)
        if k not in self._en:
            self._en[k] = False
            F = self.P.F[name]
            if q < len(F.params) and F.params[q][0] == "ptr" and len(F.order) < 60:
                v = F.params[q][1]
                R = self.run(F, {v: "parameter"}, entry=True, drop=False)
                self._en[k] = bool(R.exits) and all(all(s != v for s, al in st) for ins, st, node, facts in R.exits)
        return self._en[k]

    def field_used(self, a):
        """is a pointer kept in this field used somewhere without a check for null?"""
        if a[0] != "fld":
            return False
        k = (a[2], a[3])
        if k in self._fu:
            return self._fu[k]
        self._fu[k] = None
        P = self.P
        for F in P.F.values():
            srcs = {}
            for i in F.instrs():
                if i.op == "load" and i.ty == "ptr":
                    e = P.expr(F, i.ops[0])
                    if e[0] == "fld" and (e[2], e[3]) == k:
                        srcs[i.res] = "field"
            if srcs:
                bad = []
                self.run(F, srcs, report=lambda s, ins, why, node, R: bad.append(ins) if why != "kept in an object" else None,
                         entry=None)
                if bad:
                    self._fu[k] = bad[0]
                    break
        return self._fu[k]

    def run(self, F, srcs, report=None, want_ret=False, entry=False, drop=True):
        P = self.P
        ex = {v: P.expr(F, v) for v in srcs}
        keep = frozenset(ex.values())
        if want_ret:
            keep = keep | frozenset(P.expr(F, n) for t, n in F.params) | \
                frozenset(P.expr(F, i.res) for i in F.instrs() if i.op == "call" and i.res and P.callee(i) and
                          ext_name(P.callee(i)) == "strcmp")
        hits = []

        def nonnull(facts, es):
            for e in es:
                if 0 in facts.get(("ne", e), ()) or facts.get(("eq", e, ("c", 0))) is False:
                    return True
                v = facts.get(("=", e))
                if v not in (None, 0):
                    return True
            return False

        def isnull(facts, es):
            return any(facts.get(("=", e)) == 0 or facts.get(("eq", e, ("c", 0))) is True for e in es)

        def hit(st, v, cx):
            """sources a pointer value may stand for"""
            e = cx.resolve(P.expr(F, v)) if not isinstance(v, int) else None
            if e is None:
                return ()
            r = root(e)
            out = []
            for s, al in st:
                if r == ex[s] or r in al or r == ("v", s):
                    out.append((s, al))
            return out

        def use(st, v, ins, why, cx):
            for s, al in hit(st, v, cx):
                es = (ex[s], ("v", s)) + al
                if nonnull(cx.facts, es):
                    continue
                hits.append((s, ins, why, cx.node if hasattr(cx, "node") else None))
                if drop:
                    st = st - {(s, al)}
            return st

        def step(ins, st, cx):
            op = ins.op
            st0 = st
            if op == "load":
                st = use(st, ins.ops[0], ins, "read", cx)
            elif op == "store":
                st = use(st, ins.ops[1], ins, "written", cx)
                # the value is now also known under the name of the cell
                if is_local(ins.ops[0]) and ins.optys[0] == "ptr":
                    e = cx.resolve(P.expr(F, ins.ops[0]))
                    a = ("ld", P.expr(F, ins.ops[1]))
                    new = set()
                    for s, al in st:
                        al2 = tuple(x for x in al if x != a)
                        if e == ex[s] or e in al or e == ("v", s):
                            al2 = al2 + (a,)
                        new.add((s, al2[:6]))
                    st = frozenset(new)
            elif op == "call":
                c = P.callee(ins)
                n = ext_name(c) if c and c not in P.F else None
                for q, o in enumerate(P.args(ins)):
                    if not is_local(o) or not any(True for _ in hit(st, o, cx)):
                        continue
                    # only the pointer itself or an address within the object
                    why = None
                    if n is not None:
                        if q in EXT_REQ.get(n, ()):
                            why = "passed to %s" % n
                        elif n.startswith("llvm.mem") and q < 2:
                            why = "passed to a memory copy"
                    elif c in P.F:
                        e = cx.resolve(P.expr(F, o))
                        if root(e) == e and self.required(c, q):
                            why = "passed to %s, which uses it" % c
                    else:
                        for t in (P.targets(ins) or ()):
                            if t in P.F and root(cx.resolve(P.expr(F, o))) == cx.resolve(P.expr(F, o)) and self.required(t, q):
                                why = "passed to %s, which uses it" % t
                                break
                    if why:
                        st = use(st, o, ins, why, cx)
                    elif c in P.F and self.ensures(c, q):
                        e = cx.resolve(P.expr(F, o))
                        st = frozenset(x for x in st if not (e == ex[x[0]] or e in x[1] or e == ("v", x[0])))
            if op in ("call", "load"):
                if ins.res in srcs:
                    st = frozenset(x for x in st if x[0] != ins.res) | {(ins.res, ())}
            return st if st != st0 else None

        def edge(t, val, st, cx):
            out = set()
            for s, al in st:
                if nonnull(cx.facts, (ex[s], ("v", s)) + al):
                    continue
                out.add((s, al))
            return frozenset(out)

        init = frozenset((v, ()) for v in srcs if entry or v in F.argidx)
        R = explore(P, F, [init], step, on_edge=edge, keep=keep)
        if report:
            for ins, st, node, facts in R.exits:
                for s, al in st:
                    for a in al:
                        if a[0] == "ld" and entry is False and \
                                (self.field_used(a[1]) if a[1][0] == "fld" else a[1][0] == "arg" and srcs[s] not in P.F) and \
                                not (ins.ops and ("ld", a[1]) == P.expr(F, ins.ops[0])) and \
                                not isnull(facts, (ex[s], ("v", s)) + al):
                            hits.append((s, F.defs.get(s) or ins, "kept in an object", node))
            seen = set()
            for s, ins, why, node in hits:
                if (s, id(ins)) not in seen:
                    seen.add((s, id(ins)))
                    report(s, ins, why, node, R)
        if want_ret:
            out = set()
            for ins, st, node, facts in R.exits:
                v = ins.ops[0] if ins.ops else None
                n = 0
                while ("alias", v) in facts and n < 10:
                    v = facts[("alias", v)]
                    n += 1
                if v in (0, "null"):
                    out.add(self.exit_conditions(F, facts))
                    continue
                d = F.defs.get(v) if is_local(v) else None
                if d is not None and d.op in ("phi", "select"):
                    self.unresolved.append((F.name, v))
                for s, al in st:
                    if s == v:
                        out |= set(srcs[v])
            return frozenset(out)
        return R


def returns(P, name, seen=()):
    """a return of the function that is reachable when only exit, abort and failed assertions end the process"""
    F = P.F[name]
    todo, done = [F.order[0]], set()
    while todo:
        b = todo.pop()
        if b in done:
            continue
        done.add(b)
        for i in F.blocks[b].instrs:
            if i.op == "call":
                c = P.callee(i)
                if c in P.F and c not in seen and not returns(P, c, seen + (name,)):
                    break
                if c is not None and c not in P.F and ext_name(c) in ("exit", "abort", "_exit", "_Exit", "__assert_fail",
                                                                       "quick_exit", "longjmp"):
                    break
            if i.op in ("ret", "unreachable"):      # the end of a function declared not to return
                return i
        else:
            todo.extend(F.blocks[b].succs)
    return None


@rule("C20",
      "path-sensitive nullness typestate over every function: results of calls that can fail (external allocation, "
      "open and search functions, and library functions that may return null, with the conditions on their arguments) "
      "must have been compared with null before they are used, kept or handed on; reachability of returns from the fatal "
      "error function",
      "A call can fail if it is an external function reporting failure by null or a library function with a path returning "
      "null or an unchecked failing result; conditions such as 'only if parameter k is null/zero' or 'only if the name "
      "differs from a literal' are evaluated at the call. From each such call every path is followed with branch facts; "
      "a load, store, library or internal use of the pointer (interprocedural: callee dereferences that parameter on a "
      "path without a check), or leaving the function with the pointer kept in a field that is used unchecked elsewhere "
      "or in an out parameter, before a check, is a violation. coco_error and every function that ends in it must have "
      "no path to a return.",
      ["pointer parameters of a function are non-null unless the function or its callers test them", "assertions are not "
       "checks: the analysis sees the NDEBUG program"])
def c20(ck):
    P = ck.P
    N = Nulls(P)
    for n in ("coco_error",):
        if n not in P.F:
            raise AnalysisError("function %s not found" % n)
        ck.count("fatal")
        r = returns(P, n)
        if r:
            ck.violation("returns:" + n, P.where(r), "%s can return: the code that raised the error goes on" % n)
    # the fatal error is reported before the process ends
    F = P.F["coco_error"]
    R = explore(P, F, [False], lambda i, st, cx: True if i.op == "call" and P.callee(i) and
                ext_name(P.callee(i)) in ("vfprintf", "fprintf", "vprintf", "printf", "fputs") and
                any(o == F.params[0][1] for o in P.args(i)) else
                (bad.append(i) if i.op == "call" and not st and P.callee(i) and
                 ext_name(P.callee(i)) in ("exit", "abort", "_exit") else None), ) if not (bad := []) else None
    for i in bad:
        ck.violation("silent:coco_error", P.where(i), "coco_error ends the process without having printed its message")
    for F in P.F.values():
        srcs = {}
        for i in F.instrs():
            if i.op == "call" and i.res and i.ty == "ptr":
                ck.count("pointer_results")
                f = N.fails(F, i)
                if ("always",) in f:
                    srcs[i.res] = P.callee(i)
                    ck.count("failing_calls")
                    ck.sample("%s: %s" % (P.where(i), P.callee(i)))
        if not srcs:
            continue

        def rep(s, ins, why, node, R):
            ck.violation("null:%s:%s" % (F.name, srcs[s]), P.where(ins),
                         "the result of %s may be null and is %s without having been checked" % (srcs[s], why),
                         path_of(P, F, R, node) if node is not None else None)
        N.run(F, srcs, report=rep)
    ck.need("failing_calls", 10)
    ck.notes.append("library functions that may return null: " +
                    ", ".join(sorted(n for n, v in N._may.items() if v)))
    ck.notes.append("results not resolved to a single value: %s" % sorted(set(N.unresolved)))
