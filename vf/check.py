"""Check driver: one property id -> run its rule, write evidence and replay file, set the exit code.

exit 0  the property holds on everything analysed (known findings are printed, not raised)
exit 1  VIOLATION line printed
exit 2  the analysis could not be carried out (source does not build, anchor vanished, no instance found)
"""
import importlib, json, os, sys, time, traceback
from . import build, ir, core
from .build import AnalysisError, REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = {}


def rule(pid, technique, explanation, assumptions=()):
    def deco(fn):
        RULES[pid] = (fn, technique, explanation, list(assumptions))
        return fn
    return deco


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.violations, self.counts, self.samples, self.notes = [], {}, [], []
        self._P = {}
        self.mode = True            # the release build (assertions are not checks)
        self.files = []
        self.keys = set()

    # program models -------------------------------------------------------------------------
    @property
    def P(self):
        return self.program(self.mode)

    def program(self, ndebug):
        if ndebug not in self._P:
            txt, files = build.library_ir(ndebug=ndebug)
            self.files = files
            self._P[ndebug] = core.Program(ir.parse_module(txt))
        return self._P[ndebug]

    # reporting ------------------------------------------------------------------------------
    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def sample(self, s):
        if len(self.samples) < 60:
            self.samples.append(s)

    def need(self, what, minimum=1):
        if self.counts.get(what, 0) < minimum:
            raise AnalysisError("%s: only %d %s found (at least %d expected): the rule has nothing to decide on" %
                                (self.pid, self.counts.get(what, 0), what, minimum))

    def violation(self, key, where, msg, path=None):
        if (key, where) in self.keys:
            return
        self.keys.add((key, where))
        self.violations.append({"key": key, "where": where, "message": msg, "path": path or []})


def rel(p):
    return p.replace(REPO + "/", "") if isinstance(p, str) else p


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p)) if e.get("property") == pid and e.get("status") == "known"]


def main(argv):
    pid = argv[0]
    if pid == "--selftest":
        txt, files = build.library_ir()
        n = len(ir.parse_module(txt).functions)
        print("front end ok: %d source files, %d functions" % (len(files), n))
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    for m in sorted(os.listdir(os.path.join(VERIF, "vf", "rules"))):
        if m.endswith(".py") and m != "__init__.py":
            importlib.import_module("vf.rules." + m[:-3])
    if pid not in RULES:
        print("unknown property", pid)
        return 2
    fn, technique, explanation, assumptions = RULES[pid]
    ck = Check(pid, tier)
    t0 = time.time()
    err = None
    try:
        fn(ck)
        if tier == "thorough" and pid not in ("C04", "C20", "C21", "C22"):
            ck.mode = False         # and the build with assertions, in which a failed assertion ends the process
            fn(ck)
        if not ck.counts:
            err = "no obligation was generated"
    except AnalysisError as e:
        err = "analysis error: %s" % e
    except RecursionError:
        err = "internal error: recursion limit"
    except Exception:
        err = "internal error:\n" + traceback.format_exc()[-3000:]
    known = load_known(pid)
    kn, new = [], []
    for v in ck.violations:
        v["where"] = rel(v["where"])
        (kn if any(k["key"] == v["key"] for k in known) else new).append(v)
    EV = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")
    os.makedirs(EV, exist_ok=True)
    replay = os.path.join(EV, "replay_%s.json" % pid)
    cov = {"explanation": explanation, "rule": technique, "obligations": sum(ck.counts.values()),
           "discharged": sum(ck.counts.values()) - len(ck.violations), "analysed": ck.counts,
           "translation_units": len(ck.files), "samples": [rel(s) for s in ck.samples[:60]], "notes": ck.notes}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new),
          "known_findings": [k["key"] for k in kn]}
    if err:
        ev["coverage"]["error"] = err
    json.dump(ev, open(os.path.join(EV, pid + ".json"), "w"), indent=1)
    print("%s [%s]: %s" % (pid, tier, ", ".join("%s=%d" % kv for kv in sorted(ck.counts.items()))))
    for v in kn:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, v["key"], v["message"]))
    if new:
        json.dump({"property": pid, "violations": new}, open(replay, "w"), indent=1)
        for v in new:
            print("  %s\n    at %s" % (v["message"], v["where"]))
            if v["path"]:
                print("    path: " + " -> ".join(str(rel(x)) for x in v["path"][:14]))
            print("    key: " + v["key"])
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        if err:
            print(err)
        return 1
    if err:
        print(err)
        return 2
    print("held: %d obligations discharged in %.1f s" % (sum(ck.counts.values()), time.time() - t0))
    return 0
