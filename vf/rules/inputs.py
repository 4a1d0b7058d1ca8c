"""C03: arguments the interface declares read-only are never written, freed or retained."""
from ..check import rule
from ..flow import Summaries
from ..util import PROB


@rule("C03", "interprocedural may-write/may-free/may-retain effect analysis of pointer parameters on LLVM IR",
      "For every pointer-to-const parameter of the public functions and of every function installed in a problem or "
      "observer slot, the bottom-up effect summary (stores, frees, escapes, through aliases, callees, slots and "
      "pointers loaded from the object) must be empty.",
      ["external C functions have the effects listed in vf/flow.py (all others take their pointer arguments read-only)",
       "a pointer stored in an object of an unrelated type does not alias the parameter"])
def c03(ck):
    P = ck.P
    S = Summaries(P, deep=True)
    S0 = Summaries(P, deep=False)
    slotfns = set()
    for k, fs in P.slots.items():
        if k[0] == "f" and k[1] in (PROB, "struct.coco_observer_s"):
            slotfns |= set(fs)
    for F in P.F.values():
        if F.internal and F.name not in slotfns:
            continue
        ts = P.di.fn_types(F)
        for i, p in enumerate(F.params):
            if p[0] != "ptr" or not ts or len(ts) <= i + 1:
                continue
            pt = P.di.pointee(ts[i + 1])
            if pt is None or not P.di.is_const(pt):
                continue
            ck.count("const_parameters")
            if len(ck.samples) < 40:
                ck.sample("%s(%s)" % (F.name, p[1]))
            for kind, T, what in (("W", S, "writes to"), ("F", S, "frees"), ("K", S0, "keeps a pointer to")):
                ck.count("effects_checked")
                e = T.get(F.name, i).get(kind)
                if e:
                    ch = T.chain(F.name, i, kind)
                    ck.violation("%s:%s:%s" % (F.name, p[1].strip("%"), kind), ch[-1],
                                 "%s %s its read-only argument '%s'" % (F.name, what, p[1].strip("%")), ch)
    ck.need("const_parameters", 20)
