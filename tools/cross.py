"""every behaviour-preserving edit of the given mutant files against every check: tools/cross.py [-j N] FILE... [name...]"""
import sys, os, glob, json, shutil, subprocess, tempfile, concurrent.futures as cf
args = sys.argv[1:]
J = 7
if args and args[0] == "-j":
    J = int(args[1]); args = args[2:]
files = [a for a in args if a.endswith(".py")] or sorted(glob.glob("/verif/tools/muts/*.py"))
only = [a for a in args if not a.endswith(".py")]
props = [c["property_id"] if "property_id" in c else c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
jobs = []
tmp = tempfile.mkdtemp(prefix="cross_")
for f in files:
    ns = {}
    exec(open(f).read(), ns)
    for m in ns["M"]:
        prop, name, ff, old, new, exp = m
        if exp != 0 or (only and name not in only):
            continue
        d = "%s/%s_%s" % (tmp, os.path.basename(f)[:-3], name)
        subprocess.run(["git", "clone", "-q", os.environ.get("MUT_BASE", "/repo"), d], check=True)
        ok = True
        for fn, o, n in (ff if isinstance(ff, list) else [(ff, old, new)]):
            s = open(d + "/" + fn).read()
            if o not in s:
                print(name, "OLD TEXT NOT FOUND in", fn, repr(o[:80]))
                ok = False
                continue
            open(d + "/" + fn, "w").write(s.replace(o, n, 1))
        if ok:
            jobs += [(d, q) for q in props]
def one(j):
    d, q = j
    r = subprocess.run([sys.executable, "/verif/check.py", q], env=dict(os.environ, VERIF_REPO=d, VERIF_EVID=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return d, q, r.returncode, r.stdout
bad = 0
with cf.ThreadPoolExecutor(J) as ex:
    for d, q, rc, out in ex.map(one, jobs):
        if rc:
            bad += 1
            print(os.path.basename(d), q, "rc", rc, flush=True)
            print("   " + "\n   ".join(l[:260] for l in out.strip().split("\n")[-9:]))
shutil.rmtree(tmp)
print(len(jobs), "runs,", bad, "alarms")
