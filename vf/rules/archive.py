"""C26: archives of nondominated solutions: what is kept, what is removed, and what is derived from them."""
from collections import namedtuple
from ..check import rule
from ..core import is_local, subexprs
from ..build import AnalysisError
from ..esp import explore
from ..util import loops, full_range, path_of, must_pass, public_api

ARCH, BIOBJ, IND = "struct.coco_archive_s", "struct.logger_biobj_data_t", "struct.logger_biobj_indicator_t"
NODE, TREE = "struct.avl_node", "struct.avl_tree"
MAIN = {(ARCH, "tree"), (BIOBJ, "archive_tree")}
BUF = {(BIOBJ, "buffer_tree")}
ALLD = frozenset((-2, -1, 0, 1))
CACHE = ("number_of_solutions", "hypervolume", "current_solution", "extremes_already_returned")
PRED = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "slt": lambda a, b: a < b, "sle": lambda a, b: a <= b,
        "sgt": lambda a, b: a > b, "sge": lambda a, b: a >= b}
FLIP = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}
St = namedtuple("St", "prim D1 D2 open ins bins dirty mark acc buf feas roi comp unk out mode made")


def owner(e):
    """(struct, field) whose value e is"""
    return (e[1][2], e[1][3]) if e[0] == "ld" and e[1][0] == "fld" else None


def fld(e, name):
    return e[0] == "ld" and e[1][0] == "fld" and e[1][3] == name


def cond(F, v, ctx, n=0):
    pos = True
    while n < 20:
        n += 1
        a = ctx.facts.get(("alias", v))
        if a is not None:
            v = a
            continue
        d = F.defs.get(v) if is_local(v) else None
        if d is None:
            return v, None, pos
        if d.op in ("zext", "sext", "trunc", "freeze"):
            v = d.ops[0]
            continue
        if d.op == "xor" and d.ops[1] in (1, True, "true"):
            v, pos = d.ops[0], not pos
            continue
        if d.op == "icmp" and d.ops[1] == 0 and d.x["pred"] in ("eq", "ne") and is_local(d.ops[0]):
            dd = F.defs.get(d.ops[0])
            if dd is not None and dd.op in ("icmp", "fcmp", "zext", "xor", "phi"):
                i = cond(F, d.ops[0], ctx, n)
                return i[0], i[1], (pos if d.x["pred"] == "ne" else not pos) == i[2]
        return v, d, pos
    return v, None, pos


def dominance_rule(ck, P, names):
    """the verdict of a dominance function is the one its own comparisons imply"""
    for n in sorted(names):
        F = P.F[n]

        def val(e):
            if e[0] == "ld":
                r = e[1]
                if r[0] == "idx":
                    r = r[1]
                if r[0] == "arg" and r[1] in (0, 1):
                    return r[1]
            return None

        def oe(t, v, st, ctx):
            s, d, pos = cond(F, t.ops[0], ctx)
            if d is None or d.op != "fcmp":
                return st
            a, b = val(P.expr(F, d.ops[0])), val(P.expr(F, d.ops[1]))
            if a is None or b is None or a == b:
                return st
            true = v == pos
            pr = d.x["pred"][1:]
            if a == 1:
                pr = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(pr, pr)
            if not true:
                pr = {"lt": "ge", "ge": "lt", "gt": "le", "le": "gt"}.get(pr)
            if pr == "lt":
                return (1, st[1])
            if pr == "gt":
                return (st[0], 1)
            return st
        R = explore(P, F, [(0, 0)], lambda i, s, c: None, on_edge=oe)
        ck.count("dominance functions")
        ok = False
        for L in loops(F, P):
            ok = ok or any(True for _ in full_range(L, lambda e: e == ("arg", 2)))
        if not ok:
            ck.notes.append("%s: loop over the objectives not recognised as complete; order of comparisons judged only" % n)
        want = {(1, 0): 1, (0, 1): -1, (1, 1): 0, (0, 0): -2}
        for ret, st, node, facts in R.exits:
            v, k = ret.ops[0], 0
            while is_local(v) and ("alias", v) in facts and k < 10:
                v = facts[("alias", v)]
                k += 1
            ck.count("verdicts judged")
            if isinstance(v, int):
                v = v - (1 << 32) if v > 1 << 31 else v
                if v != want[st]:
                    ck.violation("%s:verdict" % n, P.where(ret), "%s returns %d although the first vector is %s and %s" %
                                 (n, v, "better in some objective" if st[0] else "nowhere better",
                                  "worse in some" if st[1] else "nowhere worse"), path_of(P, F, R, node))


class Archive:
    def __init__(self, ck, P):
        self.ck, self.P = ck, P
        self.dom = {n for n in P.F if n.endswith("get_dominance")}
        for n in ("avl_item_insert", "avl_node_delete", "avl_item_search_right"):
            if n not in P.F:
                raise AnalysisError("no function %s" % n)
        if not self.dom:
            raise AnalysisError("no dominance function")
        self.memo = {}

    def event(self, F, i):
        P = self.P
        if i.op == "call":
            c = P.callee(i) or ""
            if c in self.dom:
                return True
            if c.startswith("avl_") and P.args(i):
                e = P.expr(F, P.args(i)[0])
                return c in ("avl_item_insert", "avl_node_delete", "avl_item_delete", "avl_item_search_right", "avl_tree_purge",
                             "avl_item_insert_after", "avl_item_insert_before", "avl_node_unlink")
        if i.op == "store":
            a = P.expr(F, i.ops[1])
            if a[0] == "fld" and (a[2], a[3]) in ((ARCH, "is_up_to_date"), (IND, "current_value")):
                return True
            return any(x[0] == "fld" and x[3] == "indicator_contribution" for x in subexprs(a))
        return False

    def reaches(self, n, d=0):
        if n in self.memo:
            return self.memo[n]
        self.memo[n] = False
        F = self.P.F.get(n)
        if F is None or n.startswith("avl_") or n in self.dom or d > 6:
            return False
        r = any(self.event(F, i) or (i.op == "call" and self.P.callee(i) in self.P.F and self.reaches(self.P.callee(i), d + 1))
                for i in F.instrs())
        self.memo[n] = r
        return r

    def opened(self, n):
        P = self.P
        return P.inline(n, lambda c: (P.F[c].internal and c not in P.address_taken and self.reaches(c)) or
                        (P.getter(c) is not None and not c.startswith("avl_")))

    def main_tree(self, G, i, S=MAIN):
        P = self.P
        return bool(P.args(i)) and owner(P.expr(G, P.args(i)[0])) in S

    def roots(self):
        P, out = self.P, []
        for n, F in P.F.items():
            if n.startswith("avl_") or (F.internal and n not in P.address_taken) or not self.reaches(n):
                continue
            G = self.opened(n)
            if any(i.op == "call" and P.callee(i) in ("avl_item_insert", "avl_node_delete") and self.main_tree(G, i)
                   for i in G.instrs()):
                out.append((n, G))
        return out

    def judge(self, name, G):
        ck, P = self.ck, self.P
        calls = [i for i in G.instrs() if i.op == "call"]
        search = {i.res for i in calls if P.callee(i) == "avl_item_search_right" and self.main_tree(G, i)}
        inserts = {i.res for i in calls if P.callee(i) == "avl_item_insert" and self.main_tree(G, i)}
        items = {P.expr(G, P.args(i)[1]) for i in calls if P.callee(i) == "avl_item_insert" and self.main_tree(G, i)}
        doms = {i.res: i for i in calls if P.callee(i) in self.dom}
        isarch = any(x[0] == "fld" and x[2] == ARCH for i in calls if P.callee(i) == "avl_item_insert" and self.main_tree(G, i)
                     for x in subexprs(P.expr(G, P.args(i)[0])))
        buffered = any(P.callee(i) == "avl_item_insert" and self.main_tree(G, i, BUF) for i in calls)
        has_feas = not isarch
        outs = {P.callee(i) for i in calls for a in P.args(i) if is_local(a) and owner(P.expr(G, a)) in BUF
                and not (P.callee(i) or "").startswith("avl_")}
        bad = []

        def say(i, key, msg, node=None):
            bad.append((i, key, msg, node))

        def contrib(e):
            """item whose contribution e reads"""
            for x in [e]:
                if x[0] != "ld":
                    return None
                a = x[1]
                if a[0] == "idx":
                    a = a[1]
                if a[0] == "ld":
                    a = a[1]
                if a[0] == "fld" and a[3] == "indicator_contribution":
                    return a[1]
            return None
        # is the bookkeeping of the indicator values written as +/- of single contributions?
        known = True
        for i in G.instrs():
            if i.op == "store":
                a = P.expr(G, i.ops[1])
                if a[0] == "fld" and (a[2], a[3]) == (IND, "current_value"):
                    v = P.expr(G, i.ops[0])
                    if not (v[0] in ("fadd", "fsub") and len(v) == 3 and (
                            (fld(v[1], "current_value") and contrib(v[2]) is not None) or
                            (v[0] == "fadd" and fld(v[2], "current_value") and contrib(v[1]) is not None))):
                        known = False
        if not known:
            ck.notes.append("%s: indicator bookkeeping not in the recognised form; not judged" % name)
        has_acc = known and any(i.op == "store" and (lambda a: a[0] == "fld" and (a[2], a[3]) == (IND, "current_value"))(
            P.expr(G, i.ops[1])) for i in G.instrs())

        def node_of(e):
            """node whose item's objective vector e is; None for the new item"""
            if e[0] == "ld" and e[1][0] == "fld":
                x = e[1][1]
                if x[0] == "ld" and x[1][0] == "fld" and x[1][2] == NODE and x[1][3] == "item":
                    return x[1][1]
            return None

        def dom_call(i, ctx):
            a, b = (P.expr(G, x) for x in P.args(i)[:2])
            na, nb = node_of(a), node_of(b)
            if nb is not None:
                return key(nb, ctx), False
            if na is not None:
                return key(na, ctx), True
            return None, False

        def key(e, ctx):
            r = ctx.resolve(e)
            return r if primary(r) else e

        def primary(e):
            return e is not None and e[0] == "v" and e[1] in search

        def tr(ins, st, ctx):
            if ins.op == "call":
                c = P.callee(ins)
                A = P.args(ins)
                if ins.res is not None and ("v", ins.res) in items:
                    return st._replace(made=1)
                if ins.res in search:
                    return st._replace(prim=1, D1=ALLD, open=1)
                if ins.res in doms:
                    n, sw = dom_call(ins, ctx)
                    if n is None:
                        return None
                    if not primary(n) and st.D2 and 1 in st.D2[1]:
                        say(ins, "kept", "can keep a solution in the archive that the new one dominates")
                    return st._replace(D1=ALLD) if primary(n) else st._replace(D2=(n, ALLD))
                if c in outs and any(is_local(a) and owner(P.expr(G, a)) in BUF for a in A):
                    return st._replace(out=1)
                if c == "avl_tree_purge" and self.main_tree(G, ins, BUF):
                    if st.out != 1:
                        say(ins, "purge", "empties the buffer of solutions to be logged without having written them")
                    return st._replace(out=2)
                if c == "avl_item_delete" and self.main_tree(G, ins, BUF):
                    return st._replace(buf=st.buf | {P.expr(G, A[1])})
                if c == "avl_node_delete" and self.main_tree(G, ins):
                    n = key(P.expr(G, A[1]), ctx)
                    D = st.D1 if primary(n) else st.D2[1] if st.D2 and st.D2[0] == n else ALLD
                    ck.count("removals judged")
                    if D != frozenset((1,)):
                        say(ins, "remove", "can remove a solution from the archive that the new one was not found to dominate")
                    it = ("ld", ("fld", n, NODE, "item"))
                    if buffered and it not in st.buf:
                        say(ins, "buffer", "frees a solution that may still be in the buffer of solutions to be logged")
                    if has_acc and st.comp != 0 and not st.unk and not any(x == it and w == "out" for x, w, _ in st.acc):
                        say(ins, "contribution", "removes a solution from the archive without taking its contribution off the "
                            "indicator value")
                    st = st._replace(acc=frozenset(x for x in st.acc if x[0] != it), buf=st.buf - {it}, open=1,
                                     dirty=1 if isarch else 0)
                    return st._replace(D1=frozenset()) if primary(n) else st._replace(D2=None)
                if c == "avl_item_insert":
                    if self.main_tree(G, ins):
                        ck.count("insertions judged")
                        return st._replace(ins=1, dirty=1 if isarch else 0)
                    if self.main_tree(G, ins, BUF):
                        return st._replace(bins=1)
                return None
            if ins.op == "store":
                a = P.expr(G, ins.ops[1])
                if a[0] == "fld" and (a[2], a[3]) == (ARCH, "is_up_to_date"):
                    return st._replace(mark=1 if ctx.econst(P.expr(G, ins.ops[0])) == 0 else 0)
                if has_acc and a[0] == "fld" and (a[2], a[3]) == (IND, "current_value"):
                    v = P.expr(G, ins.ops[0])
                    x = contrib(v[2]) if contrib(v[2]) is not None else contrib(v[1])
                    w = "out" if v[0] == "fsub" else "in"
                    cur = [(q, k) for y, q, k in st.acc if y == x]
                    now = cur[0] if cur else ("out" if x in items else "in", None)
                    ck.count("changes of the indicator value judged")
                    if now[0] == w and now[1] != id(ins):
                        say(ins, "twice", "%s the contribution of a solution %s the indicator value twice" %
                            (("takes", "off") if w == "out" else ("adds", "to")))
                    return st._replace(acc=frozenset(y for y in st.acc if y[0] != x) | {(x, w, id(ins))})
                if has_acc and any(y[0] == "fld" and y[3] == "indicator_contribution" for y in subexprs(a)):
                    x = contrib(("ld", a))
                    if x is not None:
                        cur = [q for y, q, k in st.acc if y == x]
                        if (cur[0] if cur else "out" if x in items else "in") == "in":
                            say(ins, "overwrite", "changes the contribution of a solution while the old one is part of the "
                                "indicator value")
            return None

        def oe(t, val, st, ctx):
            if t.op != "br":
                return st
            v, d, pos = cond(G, t.ops[0], ctx)
            true = val == pos
            if d is None:
                return st
            if d.op == "call":          # used as a truth value
                lhs, pr, k = v, "ne", 0
            elif d.op == "load":
                lhs, pr, k = v, "ne", 0
            elif d.op == "icmp":
                lhs, rhs, pr = d.ops[0], d.ops[1], d.x["pred"]
                if not is_local(lhs):
                    lhs, rhs, pr = rhs, lhs, FLIP.get(pr, pr)
                k = 0 if rhs == "null" else rhs
                if not isinstance(k, int):
                    return st
                k = k - (1 << 32) if k > 1 << 31 else k
            else:
                return st
            e = ctx.resolve(P.expr(G, lhs))
            s = e[1] if e[0] == "v" else lhs
            if pr not in PRED:
                return st
            if s in doms:
                n, sw = dom_call(doms[s], ctx)
                if n is None:
                    return st
                D = st.D1 if primary(n) else (st.D2[1] if st.D2 and st.D2[0] == n else ALLD)
                # a swapped call tells the same with opposite sign
                m = {1: -1, -1: 1} if sw else {}
                D = frozenset(x for x in D if PRED[pr](m.get(x, x), k) == true)
                if primary(n):
                    return st._replace(D1=D)
                return st._replace(D2=(n, D), open=0 if 1 not in D else st.open)
            null = PRED[pr](0, k) == true and not (PRED[pr](12345, k) == true)
            nonnull = not (PRED[pr](0, k) == true)
            if s in search:
                return st._replace(prim=2) if null else st
            if s in inserts:
                return st._replace(ins=2) if null else st
            dd = G.defs.get(s) if is_local(s) else None
            if null and ((owner(e) or ("", ""))[0] in (NODE, TREE) or (dd is not None and dd.op == "phi" and dd.ty == "ptr")):
                w, m = lhs, 0
                while is_local(w) and ("alias", w) in ctx.facts and m < 10:
                    w, m = ctx.facts[("alias", w)], m + 1
                if not is_local(w):     # not the end of the list: nothing was looked up
                    return st
                return st._replace(open=0)
            f = owner(e)
            if f:
                z = 0 if null else 1 if nonnull else None
                if f[1] == "is_feasible" and z is not None:
                    return st._replace(feas=z)
                if f[1] == "within_ROI" and z is not None and e[1][1] in items:
                    return st._replace(roi=z)
                if f[1] == "compute_indicators" and z is not None:
                    return st._replace(comp=z)
                if f[1] == "log_nondom_mode":
                    if pr in ("eq", "ne"):
                        return st._replace(mode=st.mode | {(k, (pr == "eq") == true)})
            if dd is not None and dd.op == "call" and P.callee(dd) == "strcmp" and not null:
                return st._replace(unk=1)
            return st
        R = explore(P, G, [St(0, ALLD, None, 0, 0, 0, 0, 0, frozenset(), frozenset(), None, None, None, 0, 0, frozenset(), 0)], tr,
                    on_edge=oe)
        ck.count("paths_states", R.nodes)
        vals = {k for _, st, _, _ in R.exits if st.out for k, t in st.mode if t}
        for ret, st, node, facts in R.exits:
            ck.count("return states judged")
            if st.ins == 1:
                if has_feas and st.feas != 1:
                    say(ret, "infeasible", "can add a solution to the archive that was not found to be feasible", node)
                if st.prim == 0:
                    say(ret, "unsearched", "can add a solution to the archive without comparing it to the ones there", node)
                elif st.prim == 1 and not st.D1 <= frozenset((0, 1)):
                    say(ret, "dominated", "can add a solution to the archive that an archived one dominates or equals", node)
                if 1 in st.D1 and st.prim == 1 or st.D2 and 1 in st.D2[1]:
                    say(ret, "kept", "can keep a solution in the archive that the new one dominates", node)
                elif st.open and st.prim:
                    say(ret, "unchecked", "can add a solution without having compared it to all it may dominate", node)
            elif st.ins == 0:
                if (st.prim or st.made) and st.feas != 0 and not (st.prim == 1 and st.D1 <= frozenset((-1, -2))):
                    say(ret, "lost", "can drop a solution that no archived one was found to dominate", node)
            if st.dirty and not st.mark:
                say(ret, "stale", "changes the archive without marking the derived values as out of date", node)
            if buffered and st.ins == 1 and not st.bins:
                say(ret, "unbuffered", "adds a solution to the archive but not to the buffer of solutions to be logged", node)
            if st.out == 1:
                say(ret, "again", "writes the buffered solutions without emptying the buffer: they will be written again", node)
            if vals and st.ins == 1 and not st.out and not any((k, False) in st.mode for k in vals) and \
                    not any(t and k not in vals for k, t in st.mode):
                say(ret, "unwritten", "can add a solution to the archive without writing it to the archive file", node)
            if has_acc and not st.unk and st.comp != 0:
                for x, w, k in st.acc:
                    if w == "out" and x not in items:
                        say(ret, "unbalanced", "takes the contribution of a solution that stays in the archive off the "
                            "indicator value", node)
                if st.ins == 1 and st.roi != 0 and not any(x in items and w == "in" for x, w, k in st.acc):
                    say(ret, "uncounted", "can add a solution within the region of interest without adding its contribution "
                        "to the indicator value", node)
            v, k = (ret.ops[0] if ret.ops else None), 0
            while is_local(v) and ("alias", v) in facts and k < 10:
                v = facts[("alias", v)]
                k += 1
            if isinstance(v, int) and (v != 0) != (st.ins == 1):
                say(ret, "result", "returns %d although the archive was %supdated" % (v, "" if st.ins == 1 else "not "), node)
        for i, key, msg, node in bad:
            ck.violation("%s:%s" % (name, key), P.where(i), "%s %s" % (name, msg), path_of(P, G, R, node) if node else None)
        return bool(outs), buffered


def cache_rules(ck, P):
    """derived values are read only when they were brought up to date, and are all recomputed together"""
    S = ARCH
    fresh = set()
    stores = {}
    for n, F in P.F.items():
        for i in F.instrs():
            if i.op == "store":
                a = P.expr(F, i.ops[1])
                if a[0] == "fld" and a[2] == S:
                    stores.setdefault(a[3], []).append((F, i))
    for F, i in stores.get("is_up_to_date", []):
        if P.expr(F, i.ops[0]) != ("c", 0):
            fresh.add(F.name)
    ck.count("functions that refresh", len(fresh))
    ck.need("functions that refresh", 1)
    # helpers of the refreshing function are opened
    for n in sorted(fresh):
        def want(c):
            F = P.F[c]
            return F.internal and c not in P.address_taken and any(
                i.op == "store" and (lambda a: a[0] == "fld" and a[2] == S)(P.expr(F, i.ops[1])) for i in F.instrs())
        G = P.inline(n, want)

        def tr(ins, st, ctx):
            if ins.op == "store":
                a = P.expr(G, ins.ops[1])
                if a[0] == "fld" and a[2] == S:
                    if a[3] == "is_up_to_date":
                        return st | {"flag"} if P.expr(G, ins.ops[0]) != ("c", 0) else st - {"flag"}
                    if a[3] in CACHE:
                        return st | {a[3]}
            return None
        R = explore(P, G, [frozenset()], tr)
        for ret, st, node, facts in R.exits:
            ck.count("return states judged")
            if "flag" in st:
                for f in CACHE:
                    if f not in st:
                        ck.violation("%s:%s" % (n, f), P.where(ret), "%s marks the archive as up to date without renewing %s" % (n, f),
                                     path_of(P, G, R, node))
    # every read outside: after a refresh, on the same archive, with no change in between
    changers = {"avl_item_insert", "avl_node_delete"}
    for n, F in P.F.items():
        if n in fresh and F.internal:
            continue
        reads = [i for i in F.instrs() if i.op == "load" and (lambda a: a[0] == "fld" and a[2] == S and a[3] in CACHE)(
            P.expr(F, i.ops[0]))]
        if not reads or not any(1 for _ in reads):
            continue
        if n not in public_api(P):
            # a helper: judged where it is used
            cs = P.callers(n)
            if F.internal and n not in P.address_taken and cs and all(c.fn.name not in fresh for c in cs):
                continue
            if F.internal and n not in P.address_taken:
                continue
        G = P.inline(n, lambda c: P.F[c].internal and c not in P.address_taken and c not in fresh and not c.startswith("avl_")
                     and any(i.op in ("load", "store") and (lambda a: a[0] == "fld" and a[2] == S)(
                         P.expr(P.F[c], i.ops[0 if i.op == "load" else 1])) for i in P.F[c].instrs()))
        bad = {}

        def tr(ins, st, ctx):
            if ins.op == "call":
                if P.callee(ins) in fresh:
                    return True, frozenset()
                if P.callee(ins) in changers:
                    return False, frozenset()
            if ins.op == "store":
                a = P.expr(G, ins.ops[1])
                if a[0] == "fld" and a[2] == S and a[3] == "is_up_to_date":
                    return P.expr(G, ins.ops[0]) != ("c", 0), st[1]
                if a[0] == "fld" and a[2] == S and a[3] in CACHE:
                    return st[0], st[1] | {a[3]}
            if ins.op == "load":
                a = P.expr(G, ins.ops[0])
                if a[0] == "fld" and a[2] == S and a[3] in CACHE:
                    ck.count("reads of derived values judged")
                    if not st[0] and a[3] not in st[1]:
                        bad[P.where(ins)] = a[3]
            return None

        def oe(t, val, st, ctx):
            for q, v in ctx.facts.items():
                if q[0] == "=" and v not in (0, None) and fld(q[1], "is_up_to_date"):
                    return True, st[1]
                if q[0] == "ne" and fld(q[1], "is_up_to_date") and 0 in v:
                    return True, st[1]
            return st
        explore(P, G, [(False, frozenset())], tr, on_edge=oe)
        for w, f in sorted(bad.items()):
            ck.violation("%s:%s" % (n, f), w, "%s reads %s without bringing it up to date first" % (n, f))
    ck.need("reads of derived values judged", 3)


LINKS = {(NODE, "next"): (NODE, "prev", "tail"), (NODE, "prev"): (NODE, "next", "head")}
ENDS = {"head": "prev", "tail": "next"}


def link_rules(ck, P):
    """whatever re-links the nodes of a tree leaves a doubly linked list: on every path, with the values the fields have at
    the end, x.next = y goes with y.prev = x (or the list's tail is x), and the ends of the list have no neighbour beyond"""
    def touches(F):
        return any(i.op == "store" and (lambda a: a[0] == "fld" and ((a[2], a[3]) in LINKS or (a[2] == TREE and a[3] in ENDS)))(
            P.expr(F, i.ops[1])) for i in F.instrs())
    T = {n for n, F in P.F.items() if touches(F)}
    rec = {n for n in T if n in P.reach([P.callee(i) for i in P.F[n].instrs() if i.op == "call" and P.callee(i) in P.F])}
    for n in sorted(T):
        G = P.inline(n, lambda c: c in T and c not in rec)
        relinkers = T & rec
        NULL = ("c", 0)

        def value(v, st, ctx):
            k = 0
            while is_local(v) and ("alias", v) in ctx.facts and k < 10:
                v = ctx.facts[("alias", v)]
                k += 1
            if v in ("null", 0):
                return NULL
            if is_local(v):
                for a, b in st[1]:
                    if a == v:
                        return b
                d = G.defs.get(v)
                if d is None:
                    return P.expr(G, v)
                return ("v", v)
            return ("g", v)

        def loc(addr, st, ctx):
            d = G.defs.get(addr) if is_local(addr) else None
            a = P.expr(G, addr)
            if a[0] != "fld" or not ((a[2], a[3]) in LINKS or (a[2] == TREE and a[3] in ENDS)):
                return None
            # the base as an SSA value
            if d is not None and d.op == "getelementptr":
                return (value(d.ops[0], st, ctx), a[3])
            return (value(addr, st, ctx), a[3])

        def tr(ins, st, ctx):
            mem, env, nul, on = st
            if ins.op == "load":
                l = loc(ins.ops[0], st, ctx)
                if l is not None:
                    v = dict(mem).get(l, ("init",) + l)
                    return (mem, frozenset(x for x in env if x[0] != ins.res) | {(ins.res, v)}, nul, on)
            elif ins.op == "store":
                l = loc(ins.ops[1], st, ctx)
                if l is not None:
                    v = value(ins.ops[0], st, ctx)
                    return (frozenset(x for x in mem if x[0] != l) | {(l, v)}, env, nul, on)
            elif ins.op == "call" and P.callee(ins) in relinkers:
                return (frozenset(), env, nul, on)
            return None

        def oe(t, val, st, ctx):
            v, d, pos = cond(G, t.ops[0], ctx)
            if d is None or d.op != "icmp" or d.x["pred"] not in ("eq", "ne") or "null" not in d.ops:
                return st
            q = d.ops[0] if d.ops[1] == "null" else d.ops[1]
            x = value(q, st, ctx)
            z = (d.x["pred"] == "eq") == (val == pos)
            return (st[0], st[1], st[2] | {(x, z)}, st[3])
        z = frozenset()
        R = explore(P, G, [(z, z, z, 0)], tr, on_edge=oe)
        ck.count("re-linking functions")
        ck.count("paths_states", R.nodes)
        for ret, st, node, facts in R.exits:
            mem, nul = dict(st[0]), dict(st[2])
            if not mem:
                continue
            ck.count("lists judged")

            def final(x, f):
                return mem.get((x, f), ("init", x, f))

            def isnull(x):
                return x == NULL or nul.get(x) is True
            for (x, f), v in mem.items():
                if f in ENDS:
                    if not isnull(v):
                        o = final(v, ENDS[f])
                        # unchanged end: it was one before
                        if not isnull(o) and o[0] != "init" and v != ("init", x, f):
                            ck.violation("%s:%s" % (n, f), P.where(ret), "%s makes a node the %s of the tree that has a neighbour "
                                         "beyond it" % (n, f), path_of(P, G, R, node))
                    continue
                if isnull(x):
                    continue
                back, end = ("prev", "tail") if f == "next" else ("next", "head")
                if isnull(v):
                    if not any(g == end and w == x for (_, g), w in mem.items()):
                        ck.violation("%s:%s" % (n, end), P.where(ret), "%s can leave a node without a %s node that is not the %s of "
                                     "the tree" % (n, f, end), path_of(P, G, R, node))
                    continue
                o = final(v, back)
                if o != x and not (o[0] == "init" and v == ("init", x, f)):
                    ck.violation("%s:%s" % (n, f), P.where(ret), "%s can link a node to its %s node without linking that one back" %
                                 (n, f), path_of(P, G, R, node))
    ck.need("lists judged", 4)


@rule("C26", "path-sensitive typestate on LLVM IR (archive update protocol, indicator bookkeeping, cache validity)",
      "All paths through the functions that change an archive of nondominated solutions (coco_archive_add_solution, the biobj "
      "logger's evaluation and feeding, helpers opened) are explored with the possible verdicts of each dominance comparison: "
      "a solution is added only if the search found none or the verdict excludes dominated/equal, is dropped only on such a "
      "verdict, a node is removed only on the verdict that the new one dominates it, and all candidates are compared. "
      "Each contribution is part of the indicator value exactly while its solution is archived. Derived values of coco_archive "
      "are marked stale by every change, refreshed as a whole and read only when fresh.",
      ["avl_item_search_right returns the neighbour in the order of the last objective (the AVL tree itself is not judged)",
       "objective vectors and contributions are numbers computed elsewhere; their values are not judged"])
def c26(ck):
    P = ck.P
    A = Archive(ck, P)
    dominance_rule(ck, P, A.dom)
    writes = 0
    for n, G in A.roots():
        ck.count("archive updating functions")
        o, b = A.judge(n, G)
        writes += o and b
    link_rules(ck, P)
    ck.need("archive updating functions", 3)
    ck.need("insertions judged", 3)
    if not writes:
        ck.violation("adat", "logger_biobj", "no evaluation callback writes the new nondominated solutions to the archive file")
    cache_rules(ck, P)
