"""Front end: turn /repo's current sources into LLVM IR text (never runs the code).

The COCO library is distributed as one amalgamated translation unit (scripts/fabricate); the same
include-once expansion is done here straight from /repo/src, with #line markers so that every
instruction maps back to a real file and line.  clang produces -O0 IR, `opt sroa` turns locals into
SSA; no other optimisation is applied, so every memory access and call of the source is still there.
"""
import os, re, subprocess, sys, tempfile, shutil, hashlib, atexit

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
CORE = ["coco_random.c", "coco_suite.c", "coco_observer.c", "coco_archive.c", "coco_version.c"]
ENTRY = CORE + ["coco_runtime_c.c"]


class AnalysisError(Exception):
    """The analysis cannot be carried out (anchor missing, source does not compile...): exit 2."""


def find_core_entries():
    """Entry files as listed in scripts/fabricate (falls back to the known list)."""
    try:
        txt = open(os.path.join(REPO, "scripts", "fabricate")).read()
        m = re.search(r"CORE_FILES\s*=\s*\[(.*?)\]", txt, re.S)
        if m:
            names = re.findall(r"[\"']([^\"']+\.c)[\"']", m.group(1))
            if names:
                return [os.path.basename(n) for n in names]
    except OSError:
        pass
    return list(CORE)


def amalgamate(entries, src=SRC):
    seen, out = set(), []

    def inc(name):
        if name in seen:
            return
        seen.add(name)
        p = os.path.join(src, name)
        if name == "coco_version.c":
            txt = 'const char *coco_version = "0.0";\n'   # generated by fabricate, not tracked
        else:
            if not os.path.exists(p):
                raise AnalysisError("source file %s does not exist" % p)
            txt = open(p, errors="replace").read()
        out.append('#line 1 "%s"' % p)
        for n, l in enumerate(txt.split("\n"), 1):
            m = re.match(r'\s*#\s*include\s*"([^"]+)"', l)
            if m and os.path.exists(os.path.join(src, m.group(1))) or (m and m.group(1) == "coco_version.c"):
                inc(m.group(1))
                out.append('#line %d "%s"' % (n + 1, p))
            else:
                out.append(l)

    for e in entries:
        inc(e)
    return "\n".join(out) + "\n", sorted(seen)


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vf_")
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode != 0:
        raise AnalysisError("command failed: %s\n%s" % (" ".join(cmd), r.stderr[-4000:]))
    return r.stdout


BASELINE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "baseline_functions.txt")
_DEF = re.compile(r'^define internal [^\n]*?@("[^"]*"|[\w.$-]+)\([^\n]*\{$', re.M)


def splice_new(text, also=()):
    """Internal functions the tree did not have when the rules were written are marked for expansion at their calls, so that
    a piece of code moved into a helper is judged where it is used. Behaviour is not changed by this."""
    if not os.path.exists(BASELINE):
        return text, False
    base = set(open(BASELINE).read().split()) - set(also)
    hit = [False]

    def mark(m):
        n = m.group(1).strip('"')
        l = m.group(0)
        if n in base or "..." in l or not re.search(r"\) (?:unnamed_addr )?#\d+", l):
            return l
        hit[0] = True
        return re.sub(r"(\) (?:unnamed_addr )?)#\d+", r"\1#999999", l)
    text = _DEF.sub(mark, text)
    if hit[0]:
        # LLVM's inliner folds the address of a first field into the object's address; keep them apart
        kinds = set()

        def hide(m):
            kinds.add(m.group(2))
            return '%s = call ptr @"vf.first.%s"(ptr %s)' % (m.group(1), m.group(2), m.group(3))
        text = _FIRST.sub(hide, text)
        text += "\nattributes #999999 = { alwaysinline nounwind }\nattributes #999998 = { nounwind willreturn memory(none) }\n"
        text += "".join('declare ptr @"vf.first.%s"(ptr) #999998\n' % k for k in sorted(kinds))
    return text, hit[0]


_FIRST = re.compile(r"(%[\w.$-]+) = getelementptr inbounds %([\w.$-]+), ptr (%[\w.$-]+|@[\w.$-]+), i32 0, i32 0(?=[\s,])(?!, i)")
_BACK = re.compile(r'(%[\w.$-]+) = (?:tail |notail )?call ptr @"?vf\.first\.([\w.$-]+?)"?\(ptr ([^)]*?)\)(?: #\d+)?')


def unhide(text):
    text = _BACK.sub(r"\1 = getelementptr inbounds %\2, ptr \3, i32 0, i32 0", text)
    return re.sub(r"(?m)^declare ptr @\"?vf\.first\.[^\n]*\n", "", text)


def compile_ir(name, ctext, cflags=(), passes="function(sroa<preserve-cfg>)"):
    d = scratch()
    c = os.path.join(d, name + ".c")
    ll = os.path.join(d, name + ".ll")
    ll2 = os.path.join(d, name + ".opt.ll")
    open(c, "w").write(ctext)
    run(["clang", "-S", "-emit-llvm", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-w",
         "-fno-discard-value-names", "-fno-builtin", *cflags, c, "-o", ll])
    if passes != "verify":
        text, new = splice_new(open(ll).read())
        if new:
            open(ll, "w").write(text)
            passes = "always-inline," + passes
    run(["opt", "-S", "-passes=" + passes, ll, "-o", ll2])
    return unhide(open(ll2).read())


def library_ir(ndebug=True, runtime="coco_runtime_c.c"):
    text, files = amalgamate(find_core_entries() + [runtime])
    flags = ["-I", SRC] + (["-DNDEBUG"] if ndebug else [])
    return compile_ir("coco_nd" if ndebug else "coco_dbg", text, flags), files
