"""C12: function numbers, instances, dimensions and their positions are never mixed up (kind inference)."""
import re
from ..build import AnalysisError
from ..check import rule
from ..core import is_local
from .strings import Formats, CONV

SU, PR = "struct.coco_suite_s", "struct.coco_problem_s"
NAME = {"FN": "a function number", "DN": "a dimension", "IN": "an instance number", "FI": "a position in the list of "
        "functions", "DI": "a position in the list of dimensions", "II": "a position in the list of instances",
        "PI": "a problem index", "cF": "the number of functions", "cD": "the number of dimensions",
        "EV": "a number of evaluations", "EC": "a number of constraint evaluations",
        "cI": "the number of instances", "NO": "the number of objectives", "NC": "the number of constraints"}
FIELD = {(SU, "number_of_functions"): "cF", (SU, "number_of_dimensions"): "cD", (SU, "number_of_instances"): "cI",
         (SU, "current_function_idx"): "FI", (SU, "current_dimension_idx"): "DI", (SU, "current_instance_idx"): "II",
         (PR, "number_of_variables"): "DN", (PR, "number_of_objectives"): "NO", (PR, "number_of_constraints"): "NC",
         (PR, "evaluations"): "EV", (PR, "evaluations_constraints"): "EC",
         (PR, "suite_dep_function"): "FN", (PR, "suite_dep_instance"): "IN", (PR, "suite_dep_index"): "PI"}
LISTS = {(SU, "functions"): ("FN", "FI"), (SU, "dimensions"): ("DN", "DI"), (SU, "instances"): ("IN", "II")}
COUNT = {"cF": "FI", "cD": "DI", "cI": "II"}
# public entry points whose parameters are documented
API = {"coco_suite_get_problem_by_function_dimension_instance": {1: "FN", 2: "DN", 3: "IN"},
       "coco_suite_encode_problem_index": {1: "FI", 2: "DI", 3: "II"},
       "coco_suite_decode_problem_index": {1: "PI", 2: "*FI", 3: "*DI", 4: "*II"},
       "coco_suite_get_function_from_function_index": {1: "FI"},
       "coco_suite_get_dimension_from_dimension_index": {1: "DI"},
       "coco_suite_get_instance_from_instance_index": {1: "II"},
       "coco_suite_get_problem": {1: "PI"},
       "coco_archive": {1: "FN", 2: "DN", 3: "IN"}}
RET = {"coco_suite_encode_problem_index": "PI", "coco_suite_get_function_from_function_index": "FN",
       "coco_suite_get_dimension_from_dimension_index": "DN", "coco_suite_get_instance_from_instance_index": "IN",
       "coco_problem_get_suite_dep_function": "FN", "coco_problem_get_suite_dep_instance": "IN",
       "coco_problem_get_suite_dep_index": "PI", "coco_problem_get_dimension": "DN",
       "coco_problem_get_number_of_objectives": "NO", "coco_problem_get_number_of_constraints": "NC"}
BEFORE = [(r"(?:^|[^A-Za-z])f$|function = $|funcId = $|problem f$", "FN"),
          (r"^, $|(?:^|[^A-Za-z])i$|instance $|instance = $|instances: $", "IN"),
          (r"(?:^|[^A-Za-z])d=?$|DIM$|DIM = $|dim = $|dimensions: $", "DN"), (r"evaluations = $", "EV")]
AFTER = [(r"D(?:\W|$)", "DN"), (r" objective", "NO"), (r" constraint", "NC"), (r" variable", "DN"), (r"\|%", "EV")]


def labels(fmt):
    """kind expected by each conversion of a format, None where the text does not say"""
    out = []
    pos = 0
    for m in CONV.finditer(fmt):
        if m.group(5) == "%":
            continue
        out += [None] * ((m.group(2) == "*") + (m.group(3) == "*"))
        k = None
        if m.group(5) in "diux":
            b, a = fmt[pos:m.start()], fmt[m.end():]
            for r, kk in AFTER:
                if re.match(r, a):
                    k = kk
            for r, kk in BEFORE:
                if re.search(r, b):
                    k = kk
        pos = m.end()
        out.append(k)
    return out


class Kinds:
    def __init__(self, P, ck):
        self.P, self.ck = P, ck
        self.fm = Formats(P)
        self.param = {}        # (function, i) -> (kind, why)
        self.ret = {}
        self.fieldk = {k: (v, "field %s" % k[1]) for k, v in FIELD.items()}
        for n, d in API.items():
            if n in P.F:
                for i, k in d.items():
                    self.param[(n, i)] = (k, "parameter %d of %s" % (i, n))
        for n, k in RET.items():
            if n in P.F:
                self.ret[n] = (k, "result of %s" % n)

    def pass_(self, report):
        changed = False
        for F in self.P.F.values():
            changed |= self.function(F, report)
        return changed

    def function(self, F, report):
        P = self.P
        par, kind = {}, {}

        def find(x):
            while par.get(x, x) != x:
                x = par[x]
            return x

        conflicts = []

        def fact(x, k, why, ins):
            if not isinstance(x, tuple) and not is_local(x):
                return
            r = find(x)
            o = kind.get(r)
            if o is None:
                kind[r] = (k, why, ins)
            elif o[0] != k:
                conflicts.append((o, (k, why, ins)))

        def unify(a, b, ins):
            for v in (a, b):
                if not isinstance(v, tuple) and not is_local(v):
                    return
            ra, rb = find(a), find(b)
            if ra == rb:
                return
            ka, kb = kind.get(ra), kind.get(rb)
            par[ra] = rb
            if ka and not kb:
                kind[rb] = ka
            elif ka and kb and ka[0] != kb[0]:
                conflicts.append((kb, ka[:2] + (ins,)))

        def element(a):
            """(key of the elements, key of the index, index) for an address in an array parameter, local or global table"""
            g = F.defs.get(a) if is_local(a) else None
            if g is None or g.op != "getelementptr":
                return None
            e = P.expr(F, a)
            if e[0] != "idx":
                return None
            x = g.ops[-1]
            for _ in range(6):
                d = F.defs.get(x) if is_local(x) else None
                if d is None or not (d.op in ("zext", "sext", "freeze") or d.op in ("add", "sub") and isinstance(d.ops[1], int)):
                    break
                x = d.ops[0]
            base = e[1]
            if base[0] == "arg":
                return ("elt", base[1]), None, x
            if base[0] == "v":
                d = F.defs.get(base[1])
                if d is not None and d.op == "alloca":
                    return ("elt", base[1]), None, x
            if base[0] == "g":
                return None, ("fld", "@index", base[1]), x
            return None

        def cell(v):
            """the memory cell behind an address: local variable, out parameter or field"""
            d = F.defs.get(v) if is_local(v) else None
            if d is not None and d.op == "alloca" and d.x["aty"] in ("i64", "i32"):
                return ("cell", v)
            if v in F.argidx:
                return ("out", F.argidx[v])
            return None

        counts = []
        for b in F.order:
            for i in F.blocks[b].instrs:
                op = i.op
                if op in ("zext", "sext", "trunc", "freeze"):
                    unify(i.res, i.ops[0], i)
                elif op == "phi" and i.ty in ("i64", "i32"):
                    for o in i.ops:
                        unify(i.res, o, i)
                elif op == "select" and i.ty in ("i64", "i32"):
                    unify(i.res, i.ops[1], i)
                    unify(i.res, i.ops[2], i)
                elif op == "icmp":
                    if i.x["pred"] in ("eq", "ne") and i.optys[0] in ("i64", "i32"):
                        counts.append((i, True))
                    elif i.optys[0] in ("i64", "i32"):
                        counts.append((i, False))
                elif op in ("load", "store"):
                    a, v = (i.ops[0], i.res) if op == "load" else (i.ops[1], i.ops[0])
                    ty = i.ty if op == "load" else i.optys[0]
                    t = element(a)
                    if t and t[1] and is_local(t[2]):
                        k = self.fieldk.get(t[1][1:])
                        if k:
                            fact(t[2], k[0], k[1], i)
                        else:
                            unify(t[1], t[2], i)
                        if report:
                            self.ck.count("table_accesses")
                    if ty not in ("i64", "i32"):
                        continue
                    if t and t[0]:
                        unify(t[0], v, i)
                        continue
                    c = cell(a)
                    if c:
                        unify(("cellv",) + c, v, i)
                        continue
                    e = P.expr(F, a)
                    if e[0] == "fld":
                        k = self.fieldk.get((e[2], e[3]))
                        if k:
                            fact(v, k[0], k[1], i)
                        else:
                            unify(("fld", e[2], e[3]), v, i)
                    elif e[0] == "idx" and e[1][0] == "ld" and e[1][1][0] == "fld" and \
                            (e[1][1][2], e[1][1][3]) in LISTS:
                        kv, ki = LISTS[(e[1][1][2], e[1][1][3])]
                        fact(v, kv, "element of %s" % e[1][1][3], i)
                        g = F.defs.get(a)
                        if g is not None and g.op == "getelementptr" and len(g.ops) == 2:
                            fact(g.ops[1], ki, "index of %s" % e[1][1][3], i)
                            if report:
                                self.ck.count("list_accesses")
                elif op == "call":
                    c = P.callee(i)
                    tg = [c] if c in P.F else []
                    if c is None:
                        tg = [t for t in (P.targets(i) or ()) if t in P.F]
                    for t in tg:
                        for q, o in enumerate(P.args(i)):
                            k = self.param.get((t, q))
                            if not k:
                                continue
                            if k[0].startswith("[]"):
                                e = P.expr(F, o) if is_local(o) else ("c", 0)
                                if e[0] == "ld" and e[1][0] == "fld" and (e[1][2], e[1][3]) in LISTS:
                                    y = ("lst", e[1][3])
                                    fact(y, LISTS[(e[1][2], e[1][3])][0], "element of %s" % e[1][3], i)
                                    fact(y, k[0][2:], k[1], i)
                                elif e[0] in ("arg", "v"):
                                    fact(("elt", e[1]), k[0][2:], k[1], i)
                            elif k[0].startswith("*"):
                                cc = cell(o)
                                if cc:
                                    fact(("cellv",) + cc, k[0][1:], k[1], i)
                            else:
                                fact(o, k[0], k[1], i)
                                if report:
                                    self.ck.count("typed_arguments")
                        if t in self.ret and i.res:
                            fact(i.res, self.ret[t][0], self.ret[t][1], i)
                    n = (c or "")
                    fi = self.fm.p.get(n)
                    if fi is not None:
                        self.format(F, i, fi, fact, report)
                elif op == "ret" and i.ops and F.retty in ("i64", "i32"):
                    if F.name in RET:
                        fact(i.ops[0], RET[F.name], "result of %s" % F.name, i)
                    unify(("ret",), i.ops[0], i)
        for n, k in list(self.param.items()):
            if n[0] == F.name and n[1] < len(F.params):
                ins = F.entry().instrs[0]
                if k[0].startswith("[]"):
                    fact(("elt", n[1]), k[0][2:], k[1], ins)
                elif k[0].startswith("*"):
                    fact(("cellv", "out", n[1]), k[0][1:], k[1], ins)
                elif F.name in API:
                    fact(F.params[n[1]][1], k[0], k[1], ins)
        # sums of the same kind
        for b in F.order:
            for i in F.blocks[b].instrs:
                if i.op == "add" and i.ty in ("i64", "i32") and all(is_local(o) for o in i.ops[:2]):
                    ks = [kind.get(find(o)) for o in i.ops[:2]]
                    if all(ks) and ks[0][0] == ks[1][0] and ks[0][0] in ("NO", "NC"):
                        fact(i.res, ks[0][0], "sum of such numbers", i)
        # comparisons, once the counts are known
        for i, eq in counts:
            a, b = i.ops[0], i.ops[1]
            for x, y in ((a, b), (b, a)):
                k = kind.get(find(x)) if is_local(x) else None
                if k is None and is_local(x):
                    d = F.defs.get(x)
                    if d is not None and d.op in ("sub", "add") and d.ops[1] in (1, -1) and is_local(d.ops[0]):
                        k = kind.get(find(d.ops[0]))
                if k and k[0] in COUNT and is_local(y):
                    ky = kind.get(find(y))
                    if ky is None or ky[0] not in COUNT:
                        fact(y, COUNT[k[0]], "compared with %s" % NAME[k[0]], i)
        for i, eq in counts:
            if eq:
                ks = [kind.get(find(x)) if is_local(x) else None for x in i.ops[:2]]
                if not any(k and k[0] in COUNT for k in ks):
                    unify(i.ops[0], i.ops[1], i)
        # a shifted number stays what it is: position + 1 is no number (except where the list itself is filled)
        for b in F.order:
            for i in F.blocks[b].instrs:
                if i.op in ("add", "sub") and i.ty in ("i64", "i32") and is_local(i.ops[0]) and isinstance(i.ops[1], int):
                    a, r = kind.get(find(i.ops[0])), kind.get(find(i.res))
                    if a and r and a[0] != r[0] and a[0] not in COUNT and r[0] not in COUNT and \
                            not (r[2] is not None and r[2].op == "store" and r[1].startswith("element of")):
                        conflicts.append((a, r))
        if report:
            for o, n in conflicts:
                if o[0] == n[0]:
                    continue
                self.ck.violation("kind:%s:%s/%s" % (F.name, *sorted((o[0], n[0]))), P.where(n[2] or o[2]),
                                  "%s is used as %s (%s) and as %s (%s)" %
                                  ("a value in " + F.name, NAME[o[0]], o[1], NAME[n[0]], n[1]))
            self.ck.count("functions")
            self.ck.count("values_with_a_kind", len(kind))
        # summaries
        changed = False
        for q, p in enumerate(F.params):
            for key, pre in ((p[1], ""), (("cellv", "out", q), "*"), (("elt", q), "[]")):
                k = kind.get(find(key))
                if k and (F.name, q) not in self.param and p[0] in ("i64", "i32", "ptr"):
                    self.param[(F.name, q)] = (pre + k[0], "parameter '%s' of %s: %s" %
                                               (p[1].strip("%"), F.name, k[1].split(": ")[-1]))
                    changed = True
        k = kind.get(find(("ret",)))
        if k and F.name not in self.ret:
            self.ret[F.name] = (k[0], "result of %s" % F.name)
            changed = True
        for x in list(par) + list(kind):
            if isinstance(x, tuple) and x[0] == "fld":
                k = kind.get(find(x))
                if k and x[1:] not in self.fieldk:
                    self.fieldk[x[1:]] = (k[0], ("index of %s: %s" if x[1] == "@index" else "field %s: %s") % (x[2], k[1].split(": ")[-1]))
                    changed = True
        return changed

    def format(self, F, ins, fi, fact, report):
        P = self.P
        a = P.args(ins)
        if fi >= len(a):
            return
        T, _ = self.fm.texts(F, a[fi])
        if not T:
            return
        rest = a[fi + 1:]
        for t in sorted(T):
            ls = labels(t)
            for k, o in zip(ls, rest):
                if k and is_local(o):
                    fact(o, k, "printed by \"%s\"" % t.strip()[:60], ins)
                    if report:
                        self.ck.count("printed_identities")


@rule("C12",
      "kind inference (units of measure): union-find over SSA integers, fields, parameters and results with kinds "
      "'function number', 'dimension', 'instance', positions and counts; seeds are the suite's lists, the documented "
      "parameters and the texts of ids, names and log headers",
      "Every integer that is a function number, a dimension, an instance number, a position in one of the suite's lists "
      "or the length of one gets a kind from where it comes from and from every place it is used (list index, problem "
      "field, conversion in an id, name or log header, parameter of a constructor, index of a table, element of an array); a value that needs two kinds is a "
      "mix-up and is reported at the use.",
      ["arithmetic (seeds, offsets) produces values without a kind", "texts name what they print: f / i / d, DIM, "
       "instance, funcId, objectives, variables, constraints"])
def c12(ck):
    P = ck.P
    K = Kinds(P, ck)
    n = 0
    while K.pass_(False):
        n += 1
        if n > 40:
            break
    K.pass_(True)
    ck.need("list_accesses", 5)
    ck.need("printed_identities", 5)
    for (f, i), k in sorted(K.param.items()):
        ck.sample("%s[%d]: %s" % (f, i, k[0]))
    ck.notes.append("parameters with a kind: %d" % len(K.param))
