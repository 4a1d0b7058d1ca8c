"""C11: every problem a suite announces can be created, and every function number of a suite builds its own problem."""
import multiprocessing, os, re
from ..build import AnalysisError
from ..check import rule
from ..core import is_local
from ..sccp import Sccp, BOT, BOTK, D, K, tagged
from ..esp import noreturn_set

S = "struct.coco_suite_s"
CREATE = "coco_suite_get_problem_from_indices"


def param_stores(P, F):
    """field name of the suite -> index of the parameter stored there"""
    out = {}
    for b in F.order:
        for i in F.blocks[b].instrs:
            if i.op == "store":
                e = P.expr(F, i.ops[1])
                if e[0] == "fld" and e[2] == S:
                    for n, p in enumerate(F.params):
                        v = i.ops[0]
                        d = F.defs.get(v) if is_local(v) else None
                        if d is not None and d.op == "call" and P.args(d) and P.callee(d) and \
                                "strdup" in P.callee(d):
                            v = P.args(d)[0]
                        if v == p[1]:
                            out[e[3]] = n
    return out


def allocator(P):
    """the function that fills in a new suite: the one storing parameters in number_of_functions/dimensions"""
    for n, F in P.F.items():
        m = param_stores(P, F)
        if "number_of_functions" in m and "number_of_dimensions" in m:
            return n, m
    return None, None


def creator(P):
    if CREATE in P.F:
        return CREATE
    # the function that coco_suite_get_problem returns the result of
    F = P.F.get("coco_suite_get_problem")
    for b in F.order if F else ():
        for i in F.blocks[b].instrs:
            if i.op == "ret" and i.ops and is_local(i.ops[0]):
                d = F.defs.get(i.ops[0])
                if d is not None and d.op == "call" and P.callee(d) in P.F and len(P.F[P.callee(d)].params) == 4:
                    return P.callee(d)
    return None


def parse_ranges(t):
    """the numbers a range text stands for, or None when it is not well formed"""
    out = []
    for p in t.split(","):
        m = re.fullmatch(r"\s*(\d+)\s*(?:-\s*(\d+)\s*)?", p)
        if not m:
            return None
        a = int(m.group(1))
        b = int(m.group(2) or a)
        if a < 1 or b < a:
            return None
        out += range(a, b + 1)
    return out


def all_calls(sc):
    for (n, a), r in sc.memo.items():
        for c in r["calls"]:
            yield n, c[0], c[1], c[2]


def is_tainted(r, a):
    return any(tagged(x) for x in a) or any(tagged(x) for x in r.get("val", {}).values())


def suite_names(P):
    """every string constant that coco_suite accepts as the name of a suite"""
    al, pos = allocator(P)
    if al is None or "coco_suite" not in P.F:
        raise AnalysisError("no suite allocator found")
    out = []
    names = sorted({s for s in (P.string("@" + g) for g in P.M.globals) if s and re.fullmatch(r"[A-Za-z][\w-]*", s)})
    for s in names:
        sc = Sccp(P)
        r = sc.run("coco_suite", (("str", s), ("null",), ("null",)))
        if not r["returns"]:
            continue
        al_calls = [c for c in all_calls(sc) if c[1] == al]
        if not al_calls:
            continue
        out.append((s, sc, al_calls))
    return al, pos, out


def numbering(P, al, sname):
    """offset of the function numbers: functions[i] = i + offset; None when the loop has another shape"""
    F = P.F[al]
    sc = Sccp(P, {(S, "suite_name"): ("str", sname)})
    args = [BOT] * len(F.params)
    for n, p in enumerate(F.params):
        if P.args and p[1] == "%suite_name":
            args[n] = ("str", sname)
    r = sc.run(al, tuple(args))
    off, stores = None, []
    for b in F.order:
        if b not in r["exe"]:
            continue
        for i in F.blocks[b].instrs:
            if i.op != "store":
                continue
            e = P.expr(F, i.ops[1])
            if e[0] == "idx" and e[1][0] == "ld" and e[1][1][0] == "fld" and e[1][1][2:4] == (S, "functions"):
                stores.append((i, e))
    for i, e in stores:
        d = F.defs.get(i.ops[0]) if is_local(i.ops[0]) else None
        c = 0
        while d is not None and d.op == "add":
            o = [x for x in d.ops if isinstance(x, int)]
            v = [x for x in d.ops if not isinstance(x, int)]
            if len(o) == 1:
                c += o[0]
            elif len(v) == 2:
                # i + offset with the offset chosen by the suite's name
                k = [x for x in v if isinstance(r["val"].get(x), int)]
                if len(k) != 1:
                    return None
                c += r["val"][k[0]]
                v = [x for x in v if x != k[0]]
            d2 = F.defs.get(v[0]) if is_local(v[0]) else None
            if d2 is None:
                return None
            d = d2
        if d is None:
            return None
        if d.op == "phi":
            if off is not None:
                return None
            off = c
        elif d.op == "load" and P.expr(F, d.ops[0]) == e and off is not None:
            off += c
        else:
            return None
    return off


CTX = {}


def first_instr(P, n):
    F = P.F[n]
    return P.where(next((i for b in F.order for i in F.blocks[b].instrs if i.op == "call"), F.entry().instrs[0]))


def contents(P, F, v, r):
    """the constants stored in a local object in the executable blocks, None when there are others"""
    d = F.defs.get(v)
    while d is not None and d.op == "getelementptr":
        v = d.ops[0]
        d = F.defs.get(v)
    out, todo = {}, [(v, ())]
    while todo:
        a, ix = todo.pop()
        for u in F.users().get(a, ()):
            if u.op == "getelementptr" and u.ops[0] == a:
                todo.append((u.res, ix + tuple(map(str, u.ops[1:]))))
            elif u.op == "store" and u.block.name in r["exe"]:
                w = u.ops[0]
                w = r["val"].get(w, BOT) if is_local(w) else w
                if u.ops[1] != a or ix in out or isinstance(w, tuple) or isinstance(w, K) or any("%" in x for x in ix):
                    return None
                out[ix] = str(w)
    return sorted(out.items()) or None


def root_alloca(F, v):
    d = F.defs.get(v)
    while d is not None and d.op == "getelementptr" and is_local(d.ops[0]):
        d = F.defs.get(d.ops[0])
    return d is not None and d.op == "alloca" and d.x["aty"] != "ptr"


def makers(P):
    """functions returning a pointer from which a problem allocation (a store to its number of variables) is reached"""
    base = set()
    for n, F in P.F.items():
        for b in F.order:
            for i in F.blocks[b].instrs:
                if i.op == "store":
                    e = P.expr(F, i.ops[1])
                    if e[0] == "fld" and e[2:4] == ("struct.coco_problem_s", "number_of_variables"):
                        base.add(n)
    out, grew = set(base), True
    while grew:
        grew = False
        for n, F in P.F.items():
            if n not in out and any(i.op == "call" and P.callee(i) in out for b in F.order
                                    for i in F.blocks[b].instrs):
                out.add(n)
                grew = True
    return {n for n in out if P.F[n].retty == "ptr"}


def build_one(job):
    """can the problem (suite, function number, dimension[, instance]) be created?  -> (job, verdict, signature, error)"""
    P, cr = CTX["P"], CTX["cr"]
    s, k, d, inst = job
    elems = {(S, "functions"): K(k), (S, "dimensions"): d}
    if inst is not None:
        elems[(S, "instances")] = inst
    sc = Sccp(P, {(S, "suite_name"): ("str", s)}, elems, depth=12)
    try:
        r = sc.run(cr, (BOT,) * 4)
    except TimeoutError:
        return job, None, None, None
    if not r["returns"] or r["ret"] == ("null",):
        errs = [e for rr in sc.memo.values() for e in rr["errors"]]
        return job, False, None, P.where(errs[-1]) if errs else first_instr(P, cr)
    if sc.oob:
        ins, i, n = sc.oob[0]
        return job, "oob", "reads element %d of a table of %d" % (i, n), P.where(ins)
    sig, unknown = set(), any(i.block.fn.name in CTX["makers"] for i in sc.split_on_tag)
    for (n, args), r in sc.memo.items():
      taint = is_tainted(r, args)
      for c, a, ins in r["calls"]:
        if c not in CTX["makers"]:
            continue
        x = []
        for q, (v, t) in enumerate(zip(a, ins.optys)):
            o = P.args(ins)[q]
            if type(v) is K:
                x.append("K")
            elif isinstance(v, D):
                x.append("K%+d" % (v - k))          # a seed: the function number plus a constant
            elif v == BOTK:
                x.append("?K")
                unknown = True
            elif t == "ptr" and is_local(o) and root_alloca(ins.block.fn, o):
                # an array prepared for the call: what it holds is part of the signature
                tb = sc.table(ins.block.fn, o, [ins]) or contents(P, ins.block.fn, o, r)
                x.append(tuple(tb) if tb is not None else "?")
                unknown = unknown or tb is None and taint
            else:
                x.append(v)
        sig.add((c, tuple(map(str, x))))
    return job, True, (unknown, frozenset(sig)), None


@rule("C11",
      "interprocedural sparse conditional constant propagation over the type-checked IR, one abstract pass per (suite "
      "name, function number, dimension); comparison of the constant call signatures of the function numbers",
      "For every name coco_suite accepts, the announced numbers of functions, dimensions and default instances are read "
      "off the call of the suite allocator; for every announced combination constant propagation shows that creation "
      "can end with a problem, reads no constant table beyond its end, and that no two function numbers lead to the same constructors with the same parameters.",
      ["memory is assumed to be available", "values the propagation cannot decide count as fine"])
def c11(ck):
    P = ck.P
    cr = creator(P)
    if cr is None:
        raise AnalysisError("the function creating a suite's problem was not found")
    al, pos, suites = suite_names(P)
    nr = noreturn_set(P)
    jobs, sig_jobs = [], []
    dims_of = {}
    for s, sc, calls in suites:
        for n, c, a, ins in calls:
            nf, nd = a[pos["number_of_functions"]], a[pos["number_of_dimensions"]]
            di = a[pos["default_instances"]] if "default_instances" in pos else BOT
            where = P.where(ins)
            F = ins.block.fn
            ck.count("suites")
            if not isinstance(nf, int) or not isinstance(nd, int):
                ck.count("suites_undecided")
                continue
            darg = None
            for q, v in enumerate(P.args(ins)):
                if q not in pos.values() and ins.optys[q] == "ptr":
                    t = sc.table(F, v, [u for u in P.callers(al)])
                    if t is not None:
                        darg = t
            if darg is not None:
                if nd > len(darg):
                    ck.violation("dims:" + s, where, "suite %s announces %d dimensions but its table has %d" %
                                 (s, nd, len(darg)))
                    continue
                darg = darg[:nd]
                if 0 in darg or any(x >= y for x, y in zip(darg, darg[1:])):
                    ck.violation("dims:" + s, where, "the dimensions of suite %s are not positive and increasing: %s "
                                 "(the first and the last bound what the 'dimensions' option may select)" % (s, darg))
            # default instances
            insts = None
            if isinstance(di, tuple) and di[0] == "str":
                insts = default_instances(ck, P, s, di[1], where)
            off = numbering(P, al, s)
            ck.sample("%s: %d functions from %s, dimensions %s, instances %s" % (s, nf, off, darg, di))
            dims_of[s] = darg
            for k in range(nf):
                no = k + (1 if off is None else off)
                for d in darg or [BOT]:
                    jobs.append((s, no, d, None))
                if darg:
                    sig_jobs.append((s, no, darg[-1], (insts or [1])[0]))
                if insts and ck.tier == "thorough":
                    jobs += [(s, no, d, i) for d in darg or [BOT] for i in insts]
                elif insts and k in (0, nf - 1):
                    jobs += [(s, no, (darg or [BOT])[-1], i) for i in insts]
            if off is None:
                ck.count("numbering_undecided")
    ck.need("suites", 5)
    CTX.update(P=P, cr=cr, makers=makers(P))
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        res = pool.map(build_one, jobs + sig_jobs, chunksize=8)
    bad, oob = {}, {}
    for job, ok, sig, where in res[:len(jobs)]:
        ck.count("problems")
        if ok is False:
            bad.setdefault((job[0], job[1]), []).append((job, where))
        elif ok == "oob":
            oob.setdefault((job[0], job[1]), (job, sig, where))
    for (s, k), l in sorted(bad.items()):
        ds = sorted({str(j[2]) for j, _ in l})
        ck.violation("create:%s:f%d" % (s, k), l[0][1] or cr,
                     "suite %s announces function %d, but creating it %s always ends without a problem" %
                     (s, k, "in dimension " + "/".join(ds) + (" instance %s" % l[0][0][3] if l[0][0][3] else "")))
    for (s, k), (job, sig, where) in sorted(oob.items()):
        ck.violation("table:%s:f%d" % (s, k), where, "creating function %d of suite %s in dimension %s %s" % (k, s, job[2], sig))
    seen = {}
    for job, ok, sig, where in res[len(jobs):]:
        if ok is not True or sig is None or (job[0], job[1]) in bad:
            continue
        ck.count("signatures")
        if sig[0]:
            ck.count("signatures_with_undecided_parameter")
        seen.setdefault((job[0], sig[1]), []).append((job[1], sig[0]))
    for (s, sg), l in sorted(seen.items(), key=lambda x: str(x[0][0])):
        if len(l) > 1 and not l[0][1]:
            ck.violation("same:%s:%s" % (s, "-".join(str(k) for k, _ in l)), first_instr(P, cr),
                         "functions %s of suite %s are built by the same constructors with the same parameters: %s" %
                         (", ".join(str(k) for k, _ in l), s, sorted(c for c, _ in sg if "alloc" in c)[:6]))


def default_instances(ck, P, s, text, where):
    m = re.fullmatch(r"\s*instances\s*:\s*(.*)", text)
    if m:
        l = parse_ranges(m.group(1))
        if l is None:
            ck.violation("instances:" + s, where, "the default instances of suite %s, \"%s\", are not a list of "
                         "ranges" % (s, text))
        return l
    m = re.fullmatch(r"\s*year\s*:\s*(\d+)\s*", text)
    if not m:
        ck.violation("instances:" + s, where, "the default instances of suite %s, \"%s\", are neither 'year' nor "
                     "'instances'" % (s, text))
        return None
    fn = [n for n, F in P.F.items() if n.endswith("suite_get_instances_by_year") and len(F.params) == 2]
    if len(fn) != 1:
        ck.count("years_undecided")
        return None
    first = None
    for y in [int(m.group(1))] + list(range(2009, 2031)) + [0]:
        sc = Sccp(P, {(S, "suite_name"): ("str", s)})
        r = sc.run(fn[0], (BOT, y))
        ck.count("years")
        if not r["returns"] or r["ret"] == ("null",):
            if y == int(m.group(1)):
                errs = [e for rr in sc.memo.values() for e in rr["errors"]]
                ck.violation("year:" + s, P.where(errs[-1]) if errs else where,
                             "the default year %d of suite %s is not defined" % (y, s))
            continue
        if isinstance(r["ret"], tuple) and r["ret"][0] == "str":
            l = parse_ranges(r["ret"][1])
            if l is None:
                ck.violation("year:%s:%d" % (s, y), first_instr(P, fn[0]), "the instances of suite %s in %d, \"%s\", "
                             "are not a list of ranges" % (s, y, r["ret"][1]))
            first = first or l
    return first
