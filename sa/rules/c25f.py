"""Filters: what a filter says about a value is what its operator means."""
from engine import *
from rules.c22 import strip0

REL, LOG, FLT = "_rbusFilter_RelationExpression", "_rbusFilter_LogicExpression", "_rbusFilter"
OPS = (("GREATER_THAN", lambda c: c > 0), ("GREATER_THAN_OR_EQUAL", lambda c: c >= 0), ("LESS_THAN", lambda c: c < 0),
       ("LESS_THAN_OR_EQUAL", lambda c: c <= 0), ("EQUAL", lambda c: c == 0), ("NOT_EQUAL", lambda c: c != 0))
LOGIC = (("AND", lambda l, r: l and r), ("OR", lambda l, r: l or r), ("NOT", lambda l, r: not l))
SIGNS = (-7, -1, 0, 1, 7)
MEMBERS = {(REL, "value"): "fvalue", (LOG, "left"): "left", (LOG, "right"): "right"}
INIT = {"rbusFilter_InitRelation": {(REL, "op"): 1, (REL, "value"): 2}, "rbusFilter_InitLogic": {(LOG, "op"): 1, (LOG, "left"): 2, (LOG, "right"): 3}}


class Eval(Client):
    """one case: the type and operator of the filter, how the value compares with the filter's, what its sides say"""
    K = 200
    KHEAD = 200
    MAXSTEPS = 20000

    def __init__(self, w, env, kinds, consts, depth):
        self.w, self.env, self.kinds, self.consts, self.depth = w, env, kinds, consts, depth
        self.out = []
        self.asked = []

    def init_state(self, fn, st):
        for k in range(len(fn.args)):
            if k in self.consts:
                st.setfact(("p", k), self.consts[k], self.consts[k], frozenset())
            elif self.kinds.get(k):
                st.assume_rel("ne", ("p", k), ("c", 0))

    def kind(self, v):
        v = root(strip0(v)) if isinstance(v, tuple) else v
        if v[0] == "p":
            return self.kinds.get(v[1])
        if v[0] == "op" and v[1] == "member":
            return v[2][1]
        return None

    def on_load(self, eng, st, i, addr):
        f = lastfield(addr)
        f = f and tuple(f[:2])
        if f in self.env:
            st.regs[i.id] = ("c", self.env[f])
            return [st]
        if f in MEMBERS:
            v = ("op", "member", ("s", MEMBERS[f]), ("c", 0))
            st.regs[i.id] = v
            st.assume_rel("ne", v, ("c", 0))
            return [st]
        return None

    def on_call(self, eng, st, i, args):
        n = i.callee_name
        ks = [self.kind(a) for a in args]
        if n == "rbusValue_Compare" and len(ks) == 2:
            c = self.env["cmp"]
            if ks == ["fvalue", "value"]:
                c = -c
            elif ks != ["value", "fvalue"]:
                self.asked.append((i, "the filter compares something else than the value asked about with its own"))
                return None
            st.regs[i.id] = ("c", c)
            return [st]
        if n == "rbusFilter_Apply" and len(ks) == 2:
            if ks[1] != "value":
                self.asked.append((i, "a side of the filter is asked about another value"))
            if ks[0] in ("left", "right"):
                st.regs[i.id] = ("c", self.env[ks[0]])
                return [st]
            return None
        g = self.w.m.funcs.get(i.callee_full) if i.callee_full else None
        if g is not None and not g.decl and self.depth < 4 and any(ks) and g.dtypes and g.dtypes[0] != "void":
            sub = Eval(self.w, self.env, dict(enumerate(ks)), {k: st.const(a) for k, a in enumerate(args) if ks[k] is None and st.const(a) is not None}, self.depth + 1)
            if Engine(self.w, g, sub).run().over:
                return None
            self.asked += sub.asked
            res = {c for c, _, _ in sub.out}
            if res and None not in res:
                outs = []
                for c in sorted(res):
                    s = st.copy()
                    s.regs[i.id] = ("c", c)
                    outs.append(s)
                return outs
        return None

    def on_ret(self, eng, st, i, val):
        self.out.append((st.const(val) if val is not None else None, i, trail_text(st, 6)))


class Init(Client):
    K = 50

    def __init__(self, want):
        self.want, self.got = want, {}

    def on_store(self, eng, st, i, addr, val):
        f = lastfield(addr)
        f = f and tuple(f[:2])
        if f in self.want:
            self.got.setdefault(f, []).append((val, i, trail_text(st, 4)))
        return None


def run(w, res):
    m = w.m
    f = m.fn("rbusFilter_Apply")
    E = m.enumvals
    T = [("RBUS_FILTER_EXPRESSION_RELATION", [(o, {"cmp": c, (REL, "op"): E["RBUS_FILTER_OPERATOR_" + o]}, p(c), "compares %d" % c) for o, p in OPS for c in SIGNS]),
         ("RBUS_FILTER_EXPRESSION_LOGIC", [(o, {"left": l, "right": r, (LOG, "op"): E["RBUS_FILTER_OPERATOR_" + o]}, p(l, r), "sides %d %d" % (l, r)) for o, p in LOGIC for l in (0, 1) for r in (0, 1)])]
    seen = set()
    cases = undecided = 0

    def bad(obj, i, text, tr=""):
        if (obj, text) not in seen:
            seen.add((obj, text))
            res.add("C25.filter", "rbusFilter_Apply", obj, i.where(), text, tr)

    for t, cs in T:
        for o, env, want, how in cs:
            env = dict(env)
            env[(FLT, "type")] = E[t]
            c = Eval(w, env, {0: "filter", 1: "value"}, {}, 0)
            if Engine(w, f, c).run().over:
                undecided += 1
                continue
            for i, text in c.asked:
                bad(o, i, text)
            for v, i, tr in c.out:
                if v is None:
                    undecided += 1
                    continue
                cases += 1
                if bool(v) != bool(want):
                    bad(o, i, "a filter with the operator %s says %s about a value that %s" % (o, "yes" if v else "no", how), tr)
    for n, want in INIT.items():
        g = m.funcs.get(n)
        if g is None or g.decl:
            continue
        c = Init(want)
        Engine(w, g, c).run()
        for fld_, vs in c.got.items():
            for v, i, tr in vs:
                if v != ("p", want[fld_]) and v[0] in ("p", "c"):
                    bad(n, i, "%s does not keep what it was given as the filter's %s" % (n, fld_[1]), tr)
    res.count("filter_cases", cases, 20)
    res.count("filter_undecided", undecided)
    res.rule("C25.filter: rbusFilter_Apply, evaluated on the IR for each operator, each sign of the comparison and each pair of answers of its sides, answers what the operator means; the operands are the value asked about and the filter's own")
