"""C18: results on disk are only added to.  C19: logged evaluations are flushed before control returns."""
from ..build import AnalysisError
from ..check import rule
from ..core import is_local
from ..esp import explore, noreturn_set
from ..flow import ext_name
from ..util import path_of, public_api, lift
from .strings import Formats

DESTROY = {"unlink", "remove", "rmdir", "rename", "truncate", "ftruncate", "system", "popen", "unlinkat", "renameat",
           "execv", "execve", "execl", "execlp", "execvp", "creat", "link", "symlink", "chmod", "chown", "kill"}
REMOVERS = {"coco_remove_directory", "coco_remove_file"}      # the documented functions for deleting
OPENERS = {"fopen": (0, 1), "fopen64": (0, 1), "freopen": (0, 1)}


def ext(P, i):
    c = P.callee(i) if i.op == "call" else None
    return ext_name(c) if c is not None and c not in P.F else None


def destructive(ck, P):
    """public functions and callbacks from which a deleting, renaming or truncating call can be reached"""
    bad = {}
    for F in P.F.values():
        for i in F.instrs():
            n = ext(P, i)
            if n in DESTROY or (n in ("open", "open64") and not (len(P.args(i)) > 1 and isinstance(P.args(i)[1], int) and
                                                                  P.args(i)[1] & 3 == 0)):
                bad.setdefault(F.name, (i, n))
    roots = public_api(P) - REMOVERS
    cg = P.callgraph()
    for r in sorted(roots):
        seen, todo = {r: None}, [r]
        while todo:
            f = todo.pop(0)
            if f in bad:
                chain, x = [], f
                while x is not None:
                    chain.append(x)
                    x = seen[x]
                i, n = bad[f]
                ck.violation("delete:%s" % f, P.where(i), "%s is called from %s: files or folders of the user can be %s" %
                             (n, " -> ".join(reversed(chain)), "deleted, renamed or truncated"))
                break
            for g in cg.get(f, ()):
                if g not in seen and g in P.F and g not in REMOVERS:
                    seen[g] = f
                    todo.append(g)
        ck.count("entry_points")
        # a library function must not call the documented removers either
    for n in REMOVERS & set(P.F):
        for c in P.callers(n):
            if c.fn.name not in REMOVERS:
                ck.violation("delete:%s" % c.fn.name, P.where(c), "%s calls %s" % (c.fn.name, n))


def modes(ck, P):
    fm = Formats(P)
    for F in P.F.values():
        for i in F.instrs():
            n = ext(P, i)
            if n not in OPENERS:
                continue
            a = P.args(i)
            T, B = fm.texts(F, a[1])
            ck.count("opened_files")
            ck.sample("%s: %s" % (P.where(i), ", ".join(sorted(T)) or "?"))
            for b in B:
                ck.violation("mode:%s" % F.name, P.where(i), "the mode of the file comes from %s" % b)
            for t in sorted(T):
                if t[:1] == "a" or t in ("r", "rb", "rt"):
                    continue
                # scratch files with a fixed hidden name may be rewritten
                N, NB = fm.texts(F, a[0])
                if N and not NB and all(x.startswith("._") for x in N):
                    ck.count("scratch_files")
                    continue
                ck.violation("mode:%s" % F.name, P.where(i), "the file is opened with mode \"%s\": what an earlier run wrote "
                             "is overwritten" % t)


def known_zero(facts, e):
    return facts.get(("=", e)) == 0 or facts.get(("eq", e, ("c", 0))) is True


def makers(P):
    """functions returning int that create a directory: name -> verified?"""
    out = {}
    ch = True
    while ch:
        ch = False
        for n, F in P.F.items():
            if n in out or F.retty != "i32" or not F.internal:
                continue
            calls = [i for i in F.instrs() if i.op == "call" and
                     (ext(P, i) in ("mkdir", "_mkdir", "mkdirat") or P.callee(i) in out)]
            if calls:
                out[n] = calls
                ch = True
    return out


def zero_means_created(ck, P, n, calls):
    """0 is returned only when the last directory was created by this call"""
    F = P.F[n]
    names = {i.res for i in calls}
    keep = frozenset(P.expr(F, r) for r in names if r)

    def step(i, st, cx):
        if i.op == "call" and i.res in names:
            return i.res
    R = explore(P, F, [None], step, keep=keep)
    for ins, st, node, facts in R.exits:
        ck.count("creation_paths")
        v = ins.ops[0] if ins.ops else None
        k = 0
        while ("alias", v) in facts and k < 10:
            v = facts[("alias", v)]
            k += 1
        if isinstance(v, int) and v != 0:
            continue
        if v == st and v is not None:
            continue                                   # passes the result on
        if is_local(v):
            e = P.expr(F, v)
            if 0 in facts.get(("ne", e), ()) or facts.get(("eq", e, ("c", 0))) is False:
                continue
        if st is not None and (known_zero(facts, P.expr(F, st)) or known_zero(facts, ("v", st))):
            continue
        ck.violation("created:" + n, P.where(ins), "%s can report a new directory (0) although creating the last directory "
                     "did not succeed on this path" % n, path_of(P, F, R, node))


def unique(ck, P):
    mk = makers(P)
    for n, calls in mk.items():
        zero_means_created(ck, P, n, calls)
    # functions choosing a path for which a maker reports success
    out = set()
    for n, F in P.F.items():
        if n in mk or not F.internal:
            continue
        calls = {i.res: i for i in F.instrs() if i.op == "call" and P.callee(i) in mk and i.res}
        outs = {p[1] for p in F.params if p[0] == "ptr" and
                any(i.op == "load" and i.ty == "ptr" and i.ops[0] == p[1] and
                    any(i.res in P.args(c) for c in calls.values()) for i in F.instrs())}
        if not calls or not outs:
            continue
        out.add(n)
        keep = frozenset(P.expr(F, r) for r in calls)
        p = sorted(outs)[0]

        def step(i, st, cx):
            cur, last = st
            if i.op == "call" and i.res in calls:
                return (cur, (i.res, val(cx, P.args(i)[0], cur)))
            if i.op == "store" and i.ops[1] == p:
                return (i.ops[0], last)

        def val(cx, v, cur):
            d = F.defs.get(v) if is_local(v) else None
            if d is not None and d.op == "load" and d.ops[0] == p:
                return ("cur", cur)
            return v
        R = explore(P, F, [("entry", None)], step, keep=keep)
        for ins, st, node, facts in R.exits:
            ck.count("unique_paths")
            cur, last = st
            ok = last is not None and (last[1] == cur or last[1] == ("cur", cur)) and \
                (known_zero(facts, P.expr(F, last[0])) or known_zero(facts, ("v", last[0])))
            if not ok:
                ck.violation("unique:" + n, P.where(ins), "%s can return a folder for which it has not just created a new "
                             "directory" % n, path_of(P, F, R, node))
    return out, mk


def results(ck, P, uniq):
    """the folder an observer writes to is one the unique-directory function has just created"""
    F = P.inline("coco_observer", lambda c: c in P.F and P.F[c].internal and c not in uniq and c not in noreturn_set(P) and
                 any((i.op == "store" and P.expr(P.F[c], i.ops[1])[-1:] == ("result_folder",)) or
                     (i.op == "call" and P.callee(i) in uniq) for i in P.F[c].instrs()),
                 maxinstr=8000)

    def origin(v, n=0):
        """cell a string value was loaded from, looking through copies"""
        d = F.defs.get(v) if is_local(v) else None
        if d is None or n > 8:
            return None
        if d.op == "load":
            return d.ops[0]
        if d.op == "phi":
            o = {origin(x, n + 1) for x in d.ops}
            return o.pop() if len(o) == 1 else None
        if d.op == "call" and P.callee(d) and (P.callee(d) in ("coco_strdup",) or ext(P, d) == "strdup"):
            return origin(P.args(d)[0], n + 1)
        return None
    found = []

    def step(i, st, cx):
        if i.op == "call" and P.callee(i) in uniq:
            return st | {P.args(i)[0]}
        if i.op == "store":
            e = P.expr(F, i.ops[1])
            if e[0] == "fld" and e[3] == "result_folder" and i.optys[0] == "ptr" and i.ops[0] not in (0, "null"):
                ck.count("result_folders")
                c = origin(i.ops[0])
                if c is None or c not in st:
                    found.append((i, cx))
            elif i.ops[1] in st:
                return st - {i.ops[1]}
    R = explore(P, F, [frozenset()], step)
    for i, cx in found:
        ck.violation("folder:coco_observer", P.where(i), "the observer writes to a folder that was not created anew for it: "
                     "results of an earlier experiment can be mixed with or overwritten")


def filenames(ck, P):
    """unique file names: a name is only chosen after it was found not to exist"""
    for n, F in P.F.items():
        if not F.internal or F.retty != "void":
            continue
        tests = {i.res: i for i in F.instrs() if i.op == "call" and P.callee(i) in P.F and i.res and
                 P.callee(i) == "coco_file_exists"}
        outs = [p[1] for p in F.params if p[0] == "ptr" and
                any(i.op == "store" and i.ops[1] == p[1] and i.optys[0] == "ptr" for i in F.instrs())]
        if not tests or not outs:
            continue
        keep = frozenset(P.expr(F, r) for r in tests)

        def step(i, st, cx):
            if i.op == "call" and i.res in tests:
                return i.res
        R = explore(P, F, [None], step, keep=keep)
        for ins, st, node, facts in R.exits:
            ck.count("filename_paths")
            if st is None or not (known_zero(facts, P.expr(F, st)) or known_zero(facts, ("v", st))):
                ck.violation("filename:" + n, P.where(ins), "%s can return a file name that it has not found to be free" % n,
                             path_of(P, F, R, node))


@rule("C18",
      "effect analysis over the call graph (deleting, renaming, truncating calls; modes of opened files by string "
      "constant propagation) and path-sensitive typestate of the functions that choose new folders and files",
      "No public function or callback except the documented removal functions reaches a call that deletes, renames or "
      "truncates; every file is opened for appending or reading (fixed hidden scratch files excepted); the functions that "
      "create a directory return 0 only when the directory was created by this very call, the unique-folder function only "
      "returns with a folder for which that happened, and the observer's result folder is one it returned; unique file "
      "names are only chosen after the existence test failed.",
      ["mkdir fails with EEXIST for an existing folder"])
def c18(ck):
    P = ck.P
    destructive(ck, P)
    modes(ck, P)
    u, mk = unique(ck, P)
    results(ck, P, u)
    filenames(ck, P)
    ck.need("opened_files", 5)
    ck.need("result_folders", 1)
    ck.notes.append("folder creation: %s; unique folders: %s" % (", ".join(sorted(mk)), ", ".join(sorted(u))))


# ---- C19 ---------------------------------------------------------------------------------------------------------
WRITE = {"fprintf": 0, "vfprintf": 0, "fputs": 1, "fputc": 1, "putc": 1, "fwrite": 3}
COUNTERS = {"num_func_evaluations", "number_of_evaluations", "evaluations", "evaluation_number", "num_cons_evaluations",
            "evaluations_constraints"}
# buffered on purpose: the bi-objective logger only flushes its archive of nondominated solutions
BUFFERED = {"dat_file", "tdat_file", "rdat_file", "mdat_file", "info_file"}


def counts(P):
    """(function, value) that are evaluation counters: loads of counter fields and parameters that receive them"""
    par = set()

    def is_count(F, v, n=0):
        if not is_local(v):
            return False
        if v in F.argidx:
            return (F.name, F.argidx[v]) in par
        d = F.defs.get(v)
        if d is None or n > 6:
            return False
        if d.op in ("zext", "sext", "trunc"):
            return is_count(F, d.ops[0], n + 1)
        if d.op == "load":
            e = P.expr(F, d.ops[0])
            return e[0] == "fld" and e[3] in COUNTERS
        if d.op == "call" and P.callee(d) in P.F:
            g = P.getter(P.callee(d))
            return bool(g) and "evaluations" in P.callee(d)
        return False
    ch = True
    while ch:
        ch = False
        for F in P.F.values():
            for i in F.instrs():
                if i.op == "call" and P.callee(i) in P.F:
                    for q, o in enumerate(P.args(i)):
                        if (P.callee(i), q) not in par and is_count(F, o):
                            par.add((P.callee(i), q))
                            ch = True
    return is_count


def handle(P, F, v):
    e = P.expr(F, v)
    return e


def owner(e):
    """(structure, field) a handle is kept in"""
    if e[0] == "ld" and e[1][0] == "fld":
        return e[1][2], e[1][3]
    return None


@rule("C19",
      "path-sensitive typestate (line written -> flushed) of every log file in the evaluation and recommendation callbacks, "
      "helpers inlined bottom-up",
      "Writing a line that contains an evaluation counter makes the file it goes to 'dirty'; fflush of that file (or of all) "
      "and fclose make it clean. Every path of every function that writes such lines is followed; a helper that returns with "
      "a dirty file is judged again inlined into its callers, up to the callbacks stored in problems and observers. A "
      "callback that returns with a dirty file is a violation.",
      ["the data files of the bi-objective logger other than its archive of nondominated solutions are buffered by design",
       "fflush hands the data to the operating system"])
def c19(ck):
    P = ck.P
    isc = counts(P)
    lines, seeds = {}, set()
    for F in P.F.values():
        for i in F.instrs():
            n = ext(P, i)
            if n in WRITE and any(isc(F, o) for q, o in enumerate(P.args(i)) if q != WRITE[n]):
                lines[(F.name, i.line if hasattr(i, "line") else P.where(i))] = i
                seeds.add(F.name)
                ck.count("evaluation_lines")
                ck.sample(P.where(i))
    where = {P.where(i) for i in lines.values()}

    def buffered(e):
        o = owner(e)
        return o is not None and "biobj" in o[0] and o[1] in BUFFERED

    def judge(G):
        out = []

        def step(i, st, cx):
            if i.op != "call":
                return None
            n = ext(P, i)
            if n in WRITE:
                a = P.args(i)
                e = cx.resolve(P.expr(G, a[WRITE[n]]))
                if not buffered(e) and (P.where(i) in where or any(x[0] == e for x in st)):
                    return frozenset(x for x in st if x[0] != e) | {(e, i, True)}
            elif n in ("fflush", "fclose"):
                v = P.args(i)[0]
                if v in (0, "null"):
                    return frozenset((x[0], x[1], False) for x in st)
                e = cx.resolve(P.expr(G, v))
                return frozenset((x[0], x[1], False) if x[0] == e else x for x in st)
        def edge(t, val, st, cx):
            # nothing was written to a file that is not open
            return frozenset(x for x in st if not known_zero(cx.facts, x[0]))
        R = explore(P, G, [frozenset()], step, on_edge=edge)
        for ins, st, node, facts in R.exits:
            ck.count("paths")
            for e, i, d in st:
                if d:
                    out.append((e, i, ins, R, node))
        return out
    res = lift(P, sorted(seeds), judge)
    for f, (G, r) in sorted(res.items()):
        ck.count("functions")
        for e, i, ins, R, node in r:
            o = owner(e)
            ck.violation("dirty:%s:%s" % (f, o[1] if o else "file"), P.where(i),
                         "%s can return with the line written here not flushed%s: a crash afterwards loses an evaluation the "
                         "user has already seen" % (f, " (%s)" % o[1] if o else ""), path_of(P, G, R, node))
    ck.need("evaluation_lines", 4)
