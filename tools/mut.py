"""mutation runner: python3 tools/mut.py FILE.py  where FILE defines M = [(prop, name, file, old, new, expect)]"""
import sys, subprocess, shutil, os, tempfile, concurrent.futures as cf
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:] 
def one(m):
    prop, name, f, old, new, exp = m
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        subprocess.run(["git", "clone", "-q", os.environ.get("MUT_BASE", "/repo"), d + "/r"], check=True)
        ed = f if isinstance(f, list) else [(f, old, new)]
        for fn, o, n in ed:
            p = d + "/r/" + fn
            s = open(p).read()
            if o not in s:
                return name, prop, "OLD TEXT NOT FOUND in " + fn, ""
            open(p, "w").write(s.replace(o, n, 1))
        props = prop if isinstance(prop, list) else [prop]
        out = []
        for q in props:
            r = subprocess.run([sys.executable, "/verif/check.py", q], env=dict(os.environ, VERIF_REPO=d + "/r", VERIF_EVID=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            out.append((r.returncode, r.stdout))
        rc = max(o[0] for o in out)
        return name, props, ("ok" if all(o[0] == exp for o in out) else "MISMATCH got %s want %d" % ([o[0] for o in out], exp)), "\n".join(o[1] for o in out)
    finally:
        shutil.rmtree(d)
ms = [m for m in ns["M"] if not only or m[1] in only]
with cf.ThreadPoolExecutor(7) as ex:
    for name, prop, res, out in ex.map(one, ms):
        print(name, prop, res)
        if res != "ok" or only:
            print("   " + "\n   ".join(l[:220] for l in out.split("\n")[:12]))
