"""Stress test against helpers merged into their callers: a random set of the library's internal functions is expanded at all
calls and removed; no check may raise an alarm or fail.   merge.py SEED [-p PROB] [-c C01,..] [-f f1,f2] [-j N]"""
import argparse, os, random, subprocess, sys, tempfile, shutil, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vf import build, ir, core
ap = argparse.ArgumentParser()
ap.add_argument("seed", type=int); ap.add_argument("-p", type=float, default=0.1); ap.add_argument("-c", default="")
ap.add_argument("-f", default=""); ap.add_argument("-j", type=int, default=6)
a = ap.parse_args()
txt, files = build.library_ir()
M = ir.parse_module(txt)
P = core.Program(M)
rnd = random.Random(a.seed)
cand = []
for n, F in sorted(P.F.items()):
    if not F.internal or n in P.address_taken or F.vararg:
        continue
    cs = list(P.callers(n))
    if 1 <= len(cs) <= 3 and not n.endswith("_get_problem") and len(list(F.instrs())) <= 120 and not any(P.callee(i) == n for i in F.instrs() if i.op == "call"):
        cand.append(n)
picks = a.f.split(",") if a.f else [n for n in cand if rnd.random() < a.p]
print(len(cand), "candidates;", " ".join(picks))
d = tempfile.mkdtemp(prefix="merge_")
t, new = build.splice_new(txt, picks)
open(d + "/a.ll", "w").write(t)
build.run(["opt", "-S", "-passes=always-inline,function(sroa<preserve-cfg>)", d + "/a.ll", "-o", d + "/p.ll"])
open(d + "/o.ll", "w").write(build.unhide(open(d + "/p.ll").read()))
env = dict(os.environ, OUTLINED=d + "/o.ll", VERIF_EVID=d)
from props import PROPS, NA
ids = a.c.split(",") if a.c else [p["id"] for p in PROPS if p["id"] not in {x["property"] for x in NA} and p["id"] != "C21"]
o = os.path.join(os.path.dirname(os.path.abspath(__file__)), "outline.py")


def one(pid):
    r = subprocess.run([sys.executable, o, "--child", pid], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return pid, r.returncode, r.stdout


with cf.ThreadPoolExecutor(a.j) as ex:
    for pid, rc, out in ex.map(one, ids):
        if rc:
            print("==", pid, rc)
            print("\n".join(l[:230] for l in out.split("\n") if l.startswith("  ") or "rror" in l)[:2500])
shutil.rmtree(d)
