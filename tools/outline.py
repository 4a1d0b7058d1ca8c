"""Stress test against extracted helpers: outlines regions of the library's IR into new internal functions with LLVM's block
extractor (regions whose values do not live on, so that each becomes a 'static void helper(...)') and runs the checks on the result.
No check may raise an alarm.   outline.py SEED [-n REGIONS_PER_FUNCTION] [-c C01,C02] [-f func] [-r region] [-j N] [--list]"""
import argparse, os, random, subprocess, sys, tempfile, shutil, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from vf import build, ir, core
from vf.core import is_local

SKIP_SELF = {"C21"}     # compares builds that are compiled inside the rule


def dominators(F):
    from collections import defaultdict
    order, seen = [], set()
    st = [(F.order[0], iter(F.blocks[F.order[0]].succs))]
    seen.add(F.order[0])
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(F.blocks[s].succs)))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    idx = {b: i for i, b in enumerate(order)}
    dom = {order[0]: {order[0]}}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [dom[p] for p in F.blocks[b].preds if p in dom]
            n = set.intersection(*ps) | {b} if ps else {b}
            if dom.get(b) != n:
                dom[b] = n
                ch = True
    return dom


def regions(F, outs=False):
    dom = dominators(F)
    out = []
    entry = F.order[0]
    for h in F.order:
        if h == entry or h not in dom:
            continue
        body = {b for b in dom if h in dom[b]}
        for cut in F.order:         # region: dominated by h, not by cut
            if cut == h or cut not in dom or (cut in body and cut in ()):
                continue
            R = body - {b for b in dom if cut in dom[b]} if cut in body else (body if any(s == cut for b in body for s in F.blocks[b].succs) else None)
            if not R:
                continue
            exits = {s for b in R for s in F.blocks[b].succs if s not in R}
            if exits != {cut}:
                continue
            if any(p not in R for b in R if b != h for p in F.blocks[b].preds):
                continue
            ex = [b for b in R if cut in F.blocks[b].succs]
            if any(i.op == "ret" or i.op == "unreachable" for b in R for i in F.blocks[b].instrs):
                continue
            if not outs and len(ex) > 1 and any(i.op == "phi" for i in F.blocks[cut].instrs):
                continue
            defs = {i.res for b in R for i in F.blocks[b].instrs if i.res}
            if not outs and any(o in defs for b in F.order if b not in R for i in F.blocks[b].instrs for o in i.ops if is_local(o)):
                continue
            if any(i.op == "alloca" for b in R for i in F.blocks[b].instrs):
                continue
            n = sum(len([i for i in F.blocks[b].instrs if not (i.op == "call" and "llvm.dbg" in str(i.ops[-1]))]) for b in R)
            if n < 4:
                continue
            out.append((h, sorted(R, key=F.order.index), n))
    uniq = {}
    for r in out:
        uniq[tuple(r[1])] = r
    return list(uniq.values())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("seed", type=int)
    ap.add_argument("-n", type=int, default=1)
    ap.add_argument("-c", default="")
    ap.add_argument("-f", default="")
    ap.add_argument("-r", type=int, default=None)
    ap.add_argument("-j", type=int, default=6)
    ap.add_argument("-p", type=float, default=1.0, help="probability of changing a function")
    ap.add_argument("--outs", action="store_true", help="also regions with values that live on")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--raw", action="store_true", help="do not let the front end expand the new functions")
    a = ap.parse_args()
    rnd = random.Random(a.seed)
    txt, files = build.library_ir()
    M = ir.parse_module(txt)
    picks = {}
    only = set(a.f.split(",")) if a.f else None
    for n, F in sorted(M.functions.items()):
        if not F.blocks or (only and n not in only):
            continue
        rs = regions(F, a.outs)
        if a.list:
            for k, r in enumerate(rs):
                print(n, k, r[2], " ".join(r[1]))
            continue
        if not rs:
            continue
        if a.r is not None:
            picks[n] = [rs[a.r]]
        elif rnd.random() < a.p:
            picks[n] = [rnd.choice(rs)]
    if a.list:
        return
    d = tempfile.mkdtemp(prefix="outl_")
    open(d + "/a.ll", "w").write(txt)
    # pull the regions out one after the other: the extractor takes them all from one file
    open(d + "/b", "w").write("".join("%s %s\n" % (n, ";".join(r[1])) for n, rs in picks.items() for r in rs))
    r = subprocess.run(["opt", "-S", "-passes=extract-blocks,function(sroa<preserve-cfg>)", "-extract-blocks-file=" + d + "/b",
                        d + "/a.ll", "-o", d + "/o.ll"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-1500:])
        return
    out = open(d + "/o.ll").read()
    M2 = ir.parse_module(out)
    if not a.raw:
        t, new = build.splice_new(out)
        open(d + "/o.ll", "w").write(t)
        build.run(["opt", "-S", "-passes=always-inline,function(sroa<preserve-cfg>)", d + "/o.ll", "-o", d + "/p.ll"])
        open(d + "/o.ll", "w").write(build.unhide(open(d + "/p.ll").read()))
        print("%d functions after splicing (%d before)" % (len(ir.parse_module(open(d + "/o.ll").read()).functions), len(M.functions)))
    print("%d functions changed, %d new helpers" % (len(picks), len(M2.functions) - len(M.functions)))
    env = dict(os.environ, OUTLINED=d + "/o.ll", VERIF_EVID=d)
    sys.path.insert(0, "/verif")
    from props import PROPS, NA
    ids = a.c.split(",") if a.c else [p["id"] for p in PROPS if p["id"] not in {x["property"] for x in NA} and p["id"] not in SKIP_SELF]

    def one(pid):
        r = subprocess.run([sys.executable, os.path.abspath(__file__), "--child", pid], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        return pid, r.returncode, r.stdout
    with cf.ThreadPoolExecutor(a.j) as ex:
        for pid, rc, o in ex.map(one, ids):
            if rc:
                print("==", pid, rc)
                print("\n".join(l[:230] for l in o.split("\n") if l.startswith("  ") or "rror" in l)[:3500])
    fn = {n: rs for n, rs in picks.items()}
    import json
    json.dump({n: rs[0][1] for n, rs in fn.items()}, open("/tmp/outline_%d.json" % a.seed, "w"))
    if os.environ.get("KEEP"):
        shutil.copy(d + "/o.ll", os.environ["KEEP"])
    shutil.rmtree(d)


if __name__ == "__main__":
    if "--child" in sys.argv:
        from vf import check
        orig = build.library_ir

        def patched(ndebug=True, runtime="coco_runtime_c.c"):
            t, f = orig(ndebug, runtime)
            return (open(os.environ["OUTLINED"]).read() if ndebug and runtime == "coco_runtime_c.c" else t), f
        build.library_ir = patched
        sys.exit(check.main([sys.argv[sys.argv.index("--child") + 1]]))
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__))))
    main()
