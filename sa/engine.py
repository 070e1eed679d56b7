"""Path-sensitive abstract interpretation of one function at a time (property simulation).

A state is (client typestate, environment).  States with equal typestate that reach the same block are joined once
more than K of them differ; values that differ are replaced by a join symbol.  Branch conditions refine facts
(intervals and disequalities on symbols), so correlated branches are followed consistently.  No solver is involved.

Values are hash-consed tuples:
  ("c",n) integer or null(0)   ("f",name) function   ("g",name) global's address   ("s",text) string literal
  ("al",id) local's address    ("gep",base,steps)    ("v",id,gen) result of instruction id (gen: older loop pass)
  ("p",k) parameter            ("j",block,key) join  ("op",opcode,a,b)   ("undef",key)
"""
import heapq
from ir import CASTS

INF = 1 << 70
ZERO = ("c", 0)
ONE = ("c", 1)

INV = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
       "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle",
        "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}

NONNULL_T = ("f", "g", "s", "al")


def root(v):
    while v[0] == "gep":
        v = v[1]
    return v


def lastfield(v):
    if v[0] == "gep":
        for s in reversed(v[2]):
            if s[0] == "f":
                return s[1:3]
        return None
    if v[0] == "g":
        return ("g", v[1])
    return None


def mkgep(base, steps):
    steps = tuple(steps)
    if not steps:
        return base
    if base[0] == "gep":
        return ("gep", base[1], base[2] + steps)
    return ("gep", base, steps)


def flat(steps):
    """steps with each run of constant indices added up"""
    out = []
    for s in steps:
        if s[0] == "i" and s[1][0] == "c":
            if out and out[-1][0] == "n":
                out[-1] = ("n", out[-1][1] + s[1][1])
            else:
                out.append(("n", s[1][1]))
        else:
            out.append(s)
    return out


def subst(v, old, new):
    if v == old:
        return new
    if v[0] == "gep":
        b = subst(v[1], old, new)
        st = v[2]
        ch = b is not v[1]
        ns = []
        for s in st:
            if s[0] == "i" and isinstance(s[1], tuple):
                x = subst(s[1], old, new)
                if x is not s[1]:
                    ch = True
                    s = ("i", x)
            ns.append(s)
        return ("gep", b, tuple(ns)) if ch else v
    if v[0] == "op":
        a = subst(v[2], old, new)
        b = subst(v[3], old, new)
        if a is v[2] and b is v[3]:
            return v
        return ("op", v[1], a, b)
    return v


def subst_ts(t, old, new):
    if isinstance(t, tuple):
        if t == old:
            return new
        if not t:
            return t
        n = tuple(subst_ts(x, old, new) for x in t)
        return n if n != t else t
    if isinstance(t, frozenset):
        n = frozenset(subst_ts(x, old, new) for x in t)
        return n if n != t else t
    return t


def occurs(v, sym):
    if v == sym:
        return True
    if v[0] == "gep":
        if occurs(v[1], sym):
            return True
        return any(s[0] == "i" and isinstance(s[1], tuple) and occurs(s[1], sym) for s in v[2])
    if v[0] == "op":
        return occurs(v[2], sym) or occurs(v[3], sym)
    return False


def leaves(v, out):
    t = v[0]
    if t == "gep":
        leaves(v[1], out)
        for s in v[2]:
            if s[0] == "i" and isinstance(s[1], tuple):
                leaves(s[1], out)
    elif t == "op":
        out.add(v)
        leaves(v[2], out)
        leaves(v[3], out)
    elif t in ("v", "p", "j", "undef"):
        out.add(v)


class State:
    __slots__ = ("regs", "mem", "facts", "ts", "trail", "dflt", "gens")

    def copy(self):
        s = State()
        s.regs = dict(self.regs)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.ts = self.ts
        s.trail = self.trail
        s.dflt = dict(self.dflt)
        s.gens = self.gens
        return s

    # ---- facts
    def rng(self, v):
        if v[0] == "c":
            return (v[1], v[1])
        f = self.facts.get(v)
        if f:
            return (f[0], f[1])
        if v[0] == "op":
            o = v[1]
            if o == "add":
                a, b = self.rng(v[2]), self.rng(v[3])
                return (max(a[0] + b[0], -INF), min(a[1] + b[1], INF)) if a[0] > -INF and b[0] > -INF and a[1] < INF and b[1] < INF else (
                    a[0] + b[0] if a[0] > -INF and b[0] > -INF else -INF, a[1] + b[1] if a[1] < INF and b[1] < INF else INF)
            if o.startswith("icmp") or o == "not":
                return (0, 1)
            if o == "and" and v[3][0] == "c" and v[3][1] >= 0:
                return (0, v[3][1])
        return (-INF, INF)

    def const(self, v):
        if v[0] == "c":
            return v[1]
        f = self.facts.get(v)
        if f and f[0] == f[1]:
            return f[0]
        if v[0] == "op":
            r = self.cond(v)
            if r is not None and v[1].startswith("icmp"):
                return 1 if r else 0
        return None

    def isnull(self, v):
        """True / False / None"""
        t = v[0]
        if t == "c":
            return v[1] == 0
        if t in NONNULL_T:
            return False
        if t == "gep":
            f = self.facts.get(v)
            if f:
                if f[0] == f[1] == 0:
                    return True
                if 0 in f[2]:
                    return False
            n = self.isnull(v[1])
            if n is False:
                return False
            # a field address of an object is never null unless it is at offset 0 of null: undecided
            return None
        f = self.facts.get(v)
        if f:
            if f[0] == f[1]:
                return f[0] == 0
            if 0 in f[2] or f[0] > 0 or f[1] < 0:
                return False
        return None

    def setfact(self, v, lo, hi, ne):
        self.facts[v] = (lo, hi, ne)

    def assume_rel(self, pred, a, b):
        """refine by (a pred b); False if infeasible"""
        if a[0] == "c" and b[0] != "c":
            a, b, pred = b, a, SWAP[pred]
        if a[0] == "c" and b[0] == "c":
            return cmpc(pred, a[1], b[1])
        if pred in ("eq", "ne"):
            if a == b and a[0] != "undef":
                return pred == "eq"
            cb = self.const(b)
            if cb is None:
                ca = self.const(a)
                if ca is not None:
                    a, b, cb = b, a, ca
            if cb is not None:
                if cb == 0:
                    n = self.isnull(a)
                    if n is not None:
                        return n == (pred == "eq")
                lo, hi = self.rng(a)
                ne = self.facts.get(a, (0, 0, frozenset()))[2]
                if pred == "eq":
                    if cb < lo or cb > hi or cb in ne:
                        return False
                    # a condition compared with 0/1
                    r = self.assume_truth_of(a, cb)
                    if r is False:
                        return False
                    if a[0] == "op" and a[1] == "add" and a[3][0] == "c":
                        return self.assume_rel("eq", a[2], ("c", cb - a[3][1]))
                    self.setfact(a, cb, cb, frozenset())
                    return True
                if lo == hi == cb:
                    return False
                if (lo, hi) == (0, 1) and a[0] == "op":
                    r = self.assume_truth_of(a, 1 - cb)
                    if r is False:
                        return False
                if a[0] == "op" and a[1] == "add" and a[3][0] == "c":
                    return self.assume_rel("ne", a[2], ("c", cb - a[3][1]))
                if lo == cb:
                    lo += 1
                elif hi == cb:
                    hi -= 1
                elif len(ne) < 40:
                    ne = ne | {cb}
                self.setfact(a, lo, hi, ne)
                return True
            if a[0] in ("g", "al", "f") and b[0] in ("g", "al", "f"):
                return (a == b) == (pred == "eq")
            if pred == "eq":
                # both symbols: transfer facts both ways
                fa, fb = self.facts.get(a), self.facts.get(b)
                ra, rb = self.rng(a), self.rng(b)
                lo, hi = max(ra[0], rb[0]), min(ra[1], rb[1])
                if lo > hi:
                    return False
                ne = (fa[2] if fa else frozenset()) | (fb[2] if fb else frozenset())
                if self.isnull(a) is False or self.isnull(b) is False:
                    ne = ne | {0}
                if (lo, hi, ne) != (-INF, INF, frozenset()):
                    for x in (a, b):
                        if x[0] in ("v", "p", "j"):
                            self.setfact(x, lo, hi, ne)
                key = ("op", "icmp eq") + tuple(sorted((a, b), key=repr))
                f = self.facts.get(key)
                if f and f[0] == f[1] == 0:
                    return False
                self.setfact(key, 1, 1, frozenset())
                return True
            key = ("op", "icmp eq") + tuple(sorted((a, b), key=repr))
            f = self.facts.get(key)
            if f and f[0] == f[1] == 1:
                return False
            self.setfact(key, 0, 0, frozenset())
            return True
        # orderings
        if pred[0] == "u":
            # unsigned: usable when the other side is a non-negative constant
            if b[0] != "c" and self.const(b) is None:
                return self.rel_key(pred, a, b)
            cb = self.const(b)
            if cb < 0:
                return True
            lo, hi = self.rng(a)
            if pred in ("ult", "ule"):
                if lo < 0:
                    if self.facts.get(a) is None:
                        lo = 0
                    else:
                        lo = max(lo, 0) if hi >= 0 else lo
                m = cb - 1 if pred == "ult" else cb
                hi = min(hi, m)
                if lo > hi:
                    return False
            else:
                m = cb + 1 if pred == "ugt" else cb
                if lo >= 0:
                    lo = max(lo, m)
                    if lo > hi:
                        return False
            f = self.facts.get(a)
            ne = f[2] if f else frozenset()
            if pred == "ugt" or (pred == "uge" and cb > 0):
                ne = ne | {0} if cb >= 0 else ne
                if lo == hi == 0:
                    return False
            if a[0] not in ("g", "al", "f", "s"):
                self.setfact(a, lo, hi, ne)
            return True
        ca, cb = self.const(a), self.const(b)
        if ca is not None and cb is not None:
            return cmpc(pred, ca, cb)
        if cb is None and ca is not None:
            a, b, pred, cb = b, a, SWAP[pred], ca
        if cb is None:
            return self.rel_key(pred, a, b)
        lo, hi = self.rng(a)
        if pred == "slt":
            hi = min(hi, cb - 1)
        elif pred == "sle":
            hi = min(hi, cb)
        elif pred == "sgt":
            lo = max(lo, cb + 1)
        else:
            lo = max(lo, cb)
        if lo > hi:
            return False
        f = self.facts.get(a)
        ne = f[2] if f else frozenset()
        if lo == hi and lo in ne:
            return False
        if a[0] == "op" and a[1] == "add" and a[3][0] == "c":
            k = a[3][1]
            l2, h2 = self.rng(a[2])
            l2, h2 = max(l2, lo - k if lo > -INF else -INF), min(h2, hi - k if hi < INF else INF)
            if l2 > h2:
                return False
            self.setfact(a[2], l2, h2, (self.facts.get(a[2]) or (0, 0, frozenset()))[2])
        self.setfact(a, lo, hi, ne)
        return True

    def rel_key(self, pred, a, b):
        if pred[1:] in ("lt", "gt") and a == b:
            return False
        if pred[1:] in ("le", "ge") and a == b:
            return True
        if pred[1:] in ("gt", "ge"):
            a, b, pred = b, a, SWAP[pred]
        # now lt or le
        k = ("op", "icmp " + pred, a, b)
        f = self.facts.get(k)
        if f and f[0] == f[1]:
            return f[0] == 1
        inv = ("op", "icmp " + pred[0] + ("le" if pred[1:] == "lt" else "lt"), b, a)
        f = self.facts.get(inv)
        if f and f[0] == f[1] == 1:
            return False
        self.setfact(k, 1, 1, frozenset())
        self.setfact(inv, 0, 0, frozenset())
        return True

    def assume_truth_of(self, a, c):
        if a[0] == "op":
            if a[1].startswith("icmp"):
                return self.assume(a, c != 0)
            if a[1] == "not":
                return self.assume(a[2], c == 0)
        return None

    def assume(self, v, truth):
        """v is an i1-like value"""
        t = v[0]
        if t == "c":
            return (v[1] != 0) == truth
        if t == "op":
            o = v[1]
            if o.startswith("icmp"):
                p = o[5:]
                return self.assume_rel(p if truth else INV[p], v[2], v[3])
            if o == "not":
                return self.assume(v[2], not truth)
            if o == "and" and truth and v[3] != ZERO and v[3][0] != "c":
                return self.assume(v[2], True) and self.assume(v[3], True)
            if o == "or" and not truth:
                return self.assume(v[2], False) and self.assume(v[3], False)
        return self.assume_rel("ne" if truth else "eq", v, ZERO)

    def cond(self, v):
        """truth of an i1-like value if decided"""
        t = v[0]
        if t == "c":
            return v[1] != 0
        if t in NONNULL_T:
            return True
        if t == "op" and v[1].startswith("icmp"):
            p = v[1][5:]
            a, b = v[2], v[3]
            c = self.copy_facts()
            if not c.assume_rel(p, a, b):
                return False
            c = self.copy_facts()
            if not c.assume_rel(INV[p], a, b):
                return True
            return None
        if t == "op" and v[1] == "not":
            r = self.cond(v[2])
            return None if r is None else not r
        n = self.isnull(v)
        return None if n is None else not n

    def copy_facts(self):
        s = State()
        s.facts = dict(self.facts)
        s.regs = s.mem = s.dflt = None
        s.ts = None
        s.trail = None
        s.gens = None
        return s

    def rename(self, old, new):
        def r(v):
            return subst(v, old, new)
        self.regs = {k: r(v) for k, v in self.regs.items()}
        m = {}
        for k, v in self.mem.items():
            m[r(k)] = r(v)
        self.mem = m
        f = {}
        for k, v in self.facts.items():
            f[r(k)] = v
        self.facts = f
        d = {}
        for k, v in self.dflt.items():
            d[r(k)] = v
        self.dflt = d
        self.ts = subst_ts(self.ts, old, new)

    def mentions(self, sym):
        for v in self.regs.values():
            if occurs(v, sym):
                return True
        for k, v in self.mem.items():
            if occurs(k, sym) or occurs(v, sym):
                return True
        for k in self.facts:
            if occurs(k, sym):
                return True
        for k in self.dflt:
            if occurs(k, sym):
                return True
        return subst_ts(self.ts, sym, ("~",)) != self.ts


def cmpc(p, a, b):
    if p[0] == "u":
        M = 1 << 64
        a, b = a % M, b % M
        p = "s" + p[1:]
    return {"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b}[p]


class Budget(Exception):
    pass


class Client:
    """Overridable hooks.  on_call / on_load / on_store may return a list of states, or None for the default."""
    K = 4
    KHEAD = 2
    MAXSTEPS = 60000
    DEPTH = 4             # deepest arithmetic kept as an expression
    on_inst = None        # (eng, st, i, operand values) -> value of a conversion or of an instruction not interpreted otherwise

    on_select = None      # (eng, st, i, condition, truth)

    def init_ts(self, fn):
        return ()

    def init_state(self, fn, st):
        pass

    def on_call(self, eng, st, i, args):
        return None

    def after_call(self, eng, st, i, args):
        """after the default effect of the call"""
        return None

    def on_load(self, eng, st, i, addr):
        return None

    def on_store(self, eng, st, i, addr, val):
        return None

    def on_rmw(self, eng, st, i, addr, sym):
        pass

    def on_ret(self, eng, st, i, val):
        pass

    def on_use(self, eng, st, i, val, how):
        pass

    def on_branch(self, eng, st, i, cond):
        pass

    def ts_live(self, ts):
        """values the typestate mentions are kept alive"""
        return ()

    JOINBEST = False     # join with the most similar state instead of the last one
    ts_prune = None      # optional: (st) -> typestate without what no register or cell refers to any more


def fn_static(fn):
    """static per-function data cached on the function"""
    if hasattr(fn, "_eng"):
        return fn._eng
    rpo = fn.rpo()
    pos = {b: k for k, b in enumerate(rpo)}
    heads = set()
    for b in rpo:
        for s in fn.blocks[b].succs:
            if pos[s] <= pos[b]:
                heads.add(s)
    inloop = set()
    # any block on a cycle: SCC
    import sys
    index = {}
    low = {}
    st = []
    onst = set()
    cnt = [0]
    sccs = []

    def strong(v):
        work = [(v, iter(fn.blocks[v].succs))]
        index[v] = low[v] = cnt[0]
        cnt[0] += 1
        st.append(v)
        onst.add(v)
        while work:
            x, it = work[-1]
            for y in it:
                if y not in index:
                    index[y] = low[y] = cnt[0]
                    cnt[0] += 1
                    st.append(y)
                    onst.add(y)
                    work.append((y, iter(fn.blocks[y].succs)))
                    break
                elif y in onst:
                    low[x] = min(low[x], index[y])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[x])
                if low[x] == index[x]:
                    c = []
                    while True:
                        y = st.pop()
                        onst.discard(y)
                        c.append(y)
                        if y == x:
                            break
                    sccs.append(c)
    strong(0)
    for c in sccs:
        if len(c) > 1 or c[0] in fn.blocks[c[0]].succs:
            inloop |= set(c)
    # liveness of SSA ids at block entry (phi uses count at the predecessor's end)
    use = {}
    dfn = {}
    phiuse = {}
    phidef = {}     # phi results are alive on entry to their own block (the edge evaluates them)
    for b in rpo:
        u, d = set(), set()
        for i in fn.blocks[b].insts:
            if i.op == "phi":
                for pb, v in i.ops:
                    if isinstance(v, int):
                        phiuse.setdefault((pb, b), set()).add(v)
                phidef.setdefault(b, set()).add(i.id)
                continue
            vs = [v for v in i.ops if isinstance(v, int)]
            if isinstance(i.callee, int):
                vs.append(i.callee)
            if i.steps:
                vs += [s[1] for s in i.steps if s[0] in ("p", "i") and isinstance(s[1], int)]
            for v in vs:
                if v not in d:
                    u.add(v)
            d.add(i.id)
        use[b], dfn[b] = u, d
    live = {b: set() for b in rpo}
    ch = True
    while ch:
        ch = False
        for b in reversed(rpo):
            o = set()
            for s in fn.blocks[b].succs:
                o |= live[s] - phidef.get(s, set())
                o |= phiuse.get((b, s), set())
            n = use[b] | (o - dfn[b])
            if n != live[b]:
                live[b] = n
                ch = True
    transparent = set()
    for b in rpo:
        if b in heads or b == 0:
            continue
        ok = True
        for i in fn.blocks[b].insts:
            if i.op not in ("phi", "br", "icmp", "zext", "xor", "trunc", "switch") or (i.op == "br" and not i.ops and len(fn.blocks[b].insts) > 1 and False):
                ok = False
                break
        if ok and fn.blocks[b].insts[-1].op == "br" and len(fn.blocks[b].insts) <= 6:
            transparent.add(b)
    fn._eng = dict(pos=pos, heads=heads, inloop=inloop, live=live, transparent=transparent)
    return fn._eng


class Engine:
    def __init__(self, world, fn, client):
        self.w = world
        self.fn = fn
        self.c = client
        self.S = fn_static(fn)
        self.steps = 0
        self.exits = 0
        self.over = False

    # ------------------------------------------------------------------ values
    def val(self, st, v):
        if isinstance(v, int):
            r = st.regs.get(v)
            if r is None:
                r = ("v", v, 0)
            return r
        t = v[0]
        if t == "c":
            return ("c", v[1])
        if t == "n" or t == "z":
            return ZERO
        if t == "u":
            return ("undef", "u")
        if t in ("f", "g", "s"):
            return (t, v[1])
        if t == "gep":
            b = self.val(st, v[1])
            return mkgep(b, self.stepvals(st, v[2]))
        if t == "ce":
            if v[2]:
                return self.val(st, v[2])
            return ("k", "ce")
        if t == "fp":
            return ("fp", v[1])
        return ("k", t)

    def stepvals(self, st, steps):
        out = []
        for s in steps:
            if s[0] == "f":
                out.append(("f", s[1], s[2]))
            else:
                x = self.val(st, s[1])
                c = st.const(x)
                if s[0] == "p" and c == 0:
                    continue
                out.append(("i", ("c", c) if c is not None else x))
        return out

    def fresh(self, st, i, sub=None):
        """symbol for the result of instruction i (renaming an older incarnation)"""
        key = i.id if sub is None else (i.id, sub)
        s = ("v", key, 0)
        if i.block.id in self.S["inloop"] and key in st.gens:
            if st.mentions(s):
                o = ("v", key, 1)
                if st.mentions(o):
                    # oldest generation loses its identity
                    st.rename(o, ("v", key, 2))
                    st.facts.pop(("v", key, 2), None)
                st.rename(s, o)
        if i.block.id in self.S["inloop"]:
            st.gens = st.gens | {key}
        return s

    # ------------------------------------------------------------------ memory
    def load(self, st, i, addr):
        v = st.mem.get(addr)
        if v is not None:
            return v
        r = root(addr)
        if r[0] == "g":
            c = self.table(st, addr)
            if c is not None:
                return c
        d = st.dflt.get(r)
        if d == "undef":
            return ("undef", (r, addr[2] if addr[0] == "gep" else ()))
        if d == "zero":
            return ZERO
        # the address may itself mention the older result of this load
        st.regs["@"] = addr
        v = self.fresh(st, i)
        addr = st.regs.pop("@")
        if self.trackable(addr):
            st.mem[addr] = v
        return v

    def table(self, st, addr):
        """the value of a cell of a table that is never written"""
        g = self.w.m.globals.get(root(addr)[1])
        t = g.get("tab") if g else None
        if t is None:
            return None
        last = None
        for s in addr[2] if addr[0] == "gep" else ():
            if s[0] == "i":
                k = st.const(s[1])
                if k is None:
                    return None
                if isinstance(t, dict) and "a" in t:
                    last = (t["a"], k)
                elif last is not None:
                    last = (last[0], last[1] + k)
                else:
                    return None
                if not 0 <= last[1] < len(last[0]):
                    return None
                t = last[0][last[1]]
            else:
                last = None
                if isinstance(t, dict) and "a" in t:
                    t = t["a"][0]
                    last = None
                if not (isinstance(t, dict) and "s" in t) or s[2] not in t["s"]:
                    return None
                t = t["s"][s[2]]
        if not isinstance(t, list) or t[0] not in ("c", "n", "s", "f", "g", "z"):
            return None
        return self.val(st, t)

    def trackable(self, addr):
        return addr[0] in ("g", "al", "gep", "p", "v", "j")

    def distinct(self, st, a, b):
        """roots a and b certainly denote different objects"""
        if a == b:
            return False
        ka = a[0] == "al" or a[0] == "g" or st.facts.get(("fresh", a)) is not None
        kb = b[0] == "al" or b[0] == "g" or st.facts.get(("fresh", b)) is not None
        return ka and kb or a[0] == "al" or b[0] == "al"

    def store(self, st, addr, val):
        r = root(addr)
        if addr[0] == "gep":
            lf = lastfield(addr)
            for k in list(st.mem):
                if k == addr or k[0] != "gep":
                    continue
                if lastfield(k) == lf or (lf is None and lastfield(k) is None):
                    if self.maysame(st, k, addr):
                        del st.mem[k]
                elif k[1] == r and k[2][:len(addr[2])] == addr[2]:
                    del st.mem[k]
        st.mem[addr] = val

    def maysame(self, st, a, b):
        ra, rb = root(a), root(b)
        if ra == rb:
            # same base: differing constant indices or fields are different cells
            sa, sb = a[2], b[2]
            for x, y in zip(sa, sb):
                if x != y:
                    if x[0] != y[0]:
                        # one index written in more steps than the other: p[0].f and p[0 + 1].f
                        na, nb = flat(sa), flat(sb)
                        for x, y in zip(na, nb):
                            if x != y and x[0] == y[0] and (x[0] == "f" or x[0] == "n"):
                                return False
                        return True
                    if x[0] == "f" and y[0] == "f":
                        return False
                    if x[0] == "i" and y[0] == "i" and x[1][0] == "c" and y[1][0] == "c":
                        return False
            return True
        return not self.distinct(st, ra, rb)

    def kill_obj(self, st, base, dflt="unk"):
        """contents reachable directly at base become unknown"""
        r = root(base)
        for k in list(st.mem):
            if k == base or (k[0] == "gep" and k[1] == r and (base[0] != "gep" or k[2][:len(base[2])] == base[2])):
                del st.mem[k]
        if base[0] != "gep" or dflt == "unk":
            if dflt is None:
                st.dflt.pop(r, None)
            elif base[0] != "gep" or st.dflt.get(r) not in (None, "unk"):
                # partial unknown inside an otherwise defaulted object: give up the default
                if base[0] == "gep" and dflt == "unk":
                    st.dflt[r] = "unk"
                else:
                    st.dflt[r] = dflt

    def kill_classes(self, st, classes):
        if not classes:
            return
        if "*" in classes:
            for k in list(st.mem):
                if root(k)[0] != "al":
                    del st.mem[k]
            return
        for k in list(st.mem):
            lf = lastfield(k)
            if lf in classes and root(k)[0] != "al":
                del st.mem[k]
            elif k[0] == "g" and ("g", k[1]) in classes:
                del st.mem[k]

    # ------------------------------------------------------------------ run
    def run(self):
        fn = self.fn
        st = State()
        st.regs = {a: ("p", k) for k, a in enumerate(fn.args)}
        st.mem = {}
        st.facts = {}
        st.dflt = {}
        st.gens = frozenset()
        st.trail = None
        st.ts = self.c.init_ts(fn)
        self.c.init_state(fn, st)
        self.at = {}     # block -> {ts: [states]}
        self.joins = {}
        self.jprev = {}
        self.q = []
        self.n = 0
        self.joined = {}
        self.arrive(0, st)
        pos = self.S["pos"]
        while self.q:
            _, _, b, st = heapq.heappop(self.q)
            if st.gens is None:
                continue
            if self.steps > self.c.MAXSTEPS:
                self.over = True
                break
            self.block(b, st)
        return self

    def push(self, b, st):
        self.n += 1
        heapq.heappush(self.q, (self.S["pos"][b], self.n, b, st))

    def arrive(self, b, st):
        self.prune(b, st)
        d = self.at.setdefault(b, {})
        l = d.setdefault(st.ts, [])
        for o in l:
            if self.leq(st, o):
                return
        K = self.c.KHEAD if b in self.S["heads"] else self.c.K
        if len(l) >= K:
            o = l[-1]
            self.joined[b, st.ts] = n = self.joined.get((b, st.ts), 0) + 1
            if self.c.JOINBEST and n < 3000:       # (joining with the most similar one need not come to an end)
                o = min(reversed(l), key=lambda x: sum(x.regs.get(k) != v for k, v in st.regs.items()) * 4 + sum(x.mem.get(k) != v for k, v in st.mem.items()) + sum(x.facts.get(k) != v for k, v in st.facts.items()))
            j = self.join(b, o, st)
            if self.leq(j, o):
                return
            l.remove(o)
            o.gens = None        # superseded: not processed if still queued
            # drop now-subsumed
            l[:] = [x for x in l if not self.leq(x, j)]
            l.append(j)
            self.push(b, j)
            return
        l.append(st)
        self.push(b, st)

    def prune(self, b, st):
        live = self.S["live"][b]
        st.regs = {k: v for k, v in st.regs.items() if k in live}
        if self.c.ts_prune is not None:
            st.ts = self.c.ts_prune(st)
        keep = set()
        for v in st.regs.values():
            leaves(v, keep)
        # memory cells whose root is a dead symbol
        ch = True
        tv = set()
        for v in self.c.ts_live(st.ts):
            leaves(v, tv)
        keep |= tv
        mem = st.mem
        # a symbol kept in a rooted cell stays live
        roots_ok = lambda r: r[0] in ("g", "al", "p") or r in keep
        todo = dict(mem)
        newmem = {}
        while True:
            moved = []
            for k, v in todo.items():
                if roots_ok(root(k)):
                    newmem[k] = v
                    moved.append(k)
                    leaves(v, keep)
            if not moved:
                break
            for k in moved:
                del todo[k]
        st.mem = newmem
        nf = {}
        for k, f in st.facts.items():
            if k[0] == "p" or k in keep:
                nf[k] = f
            elif k[0] == "fresh":
                if k[1] in keep:
                    nf[k] = f
            elif k[0] in ("op", "gep"):
                s = set()
                leaves(k, s)
                s.discard(k)
                if all(x in keep or x[0] == "p" or x[0] == "op" for x in s):
                    nf[k] = f
        st.facts = nf
        st.dflt = {k: v for k, v in st.dflt.items() if roots_ok(k)}

    def leq(self, a, b):
        """a is covered by b (b weaker)"""
        for k, v in b.regs.items():
            if a.regs.get(k) != v:
                return False
        for k, v in b.mem.items():
            if a.mem.get(k) != v:
                return False
        for k, v in b.dflt.items():
            if v != "unk" and a.dflt.get(k) != v:
                return False
        for k, f in b.facts.items():
            g = a.facts.get(k)
            if g == f:
                continue
            if g is None:
                return False
            if g[0] < f[0] or g[1] > f[1]:
                return False
            if not (f[2] <= g[2]) and not all(x < g[0] or x > g[1] or x in g[2] for x in f[2]):
                return False
        return True

    def join(self, b, o, n):
        s = State()
        s.ts = n.ts
        s.trail = n.trail
        s.gens = o.gens | n.gens
        s.regs = {}
        s.mem = {}
        s.facts = {}
        s.dflt = {}
        jmap = {}
        jfacts = {}

        def jv(key, x, y):
            if x == y:
                return x
            if (x, y) in jmap:
                return jmap[(x, y)]
            js = ("j", b, key)
            jmap[(x, y)] = js
            # facts
            ox = x == js
            lx, hx = o.rng(x)
            ly, hy = n.rng(y)
            lo, hi = min(lx, ly), max(hx, hy)
            nx, ny = o.isnull(x), n.isnull(y)
            ne = frozenset()
            if nx is False and ny is False:
                ne = frozenset({0})
            fx = o.facts.get(x)
            fy = n.facts.get(y)
            if fx and fy:
                ne = ne | (fx[2] & fy[2])
            cnt = self.joins.get(js, 0)
            if ox or cnt > 3:
                # widening
                if fx and ox:
                    lo = lo if lo >= fx[0] else -INF
                    hi = hi if hi <= fx[1] else INF
                elif cnt > 3:
                    plo, phi = self.jprev.get(js, (lo, hi))
                    lo = lo if lo >= plo else (0 if lo >= 0 else -INF)
                    hi = hi if hi <= phi else INF
            self.jprev[js] = (lo, hi)
            self.joins[js] = cnt + 1
            if (lo, hi, ne) != (-INF, INF, frozenset()):
                jfacts[js] = (lo, hi, ne)
            return js
        for k, x in o.regs.items():
            y = n.regs.get(k)
            if y is None:
                continue
            s.regs[k] = jv(("r", k), x, y)
        for k, x in o.mem.items():
            y = n.mem.get(k)
            if y is None:
                d = n.dflt.get(root(k))
                if d == "zero":
                    y = ZERO
                elif d == "undef":
                    y = ("undef", (root(k), k[2] if k[0] == "gep" else ()))
                else:
                    continue
            if x[0] == "undef" or y[0] == "undef":
                if x != y:
                    s.mem[k] = ("undef", ("maybe", root(k), k[2] if k[0] == "gep" else ()))
                    continue
            s.mem[k] = jv(("m", k), x, y)
        for k, y in n.mem.items():
            if k in o.mem:
                continue
            d = o.dflt.get(root(k))
            if d == "zero":
                s.mem[k] = jv(("m", k), ZERO, y)
            elif d == "undef":
                s.mem[k] = ("undef", ("maybe", root(k), k[2] if k[0] == "gep" else ()))
        for k, x in o.dflt.items():
            y = n.dflt.get(k)
            if x == y:
                s.dflt[k] = x
            else:
                s.dflt[k] = "unk"
        for k in n.dflt:
            if k not in o.dflt:
                s.dflt[k] = "unk"
        for k, f in o.facts.items():
            g = n.facts.get(k)
            if g is None:
                continue
            if k[0] == "fresh":
                s.facts[k] = f
                continue
            if f == g:
                s.facts[k] = f
                continue
            lo, hi = min(f[0], g[0]), max(f[1], g[1])
            nef = f[2] | ({0} if o.isnull(k) is False else set())
            neg = g[2] | ({0} if n.isnull(k) is False else set())
            ne = frozenset(x for x in (nef | neg) if (x in nef or x < f[0] or x > f[1]) and (x in neg or x < g[0] or x > g[1]))
            if k[0] == "op" and (lo, hi) == (0, 1):
                continue
            cnt = self.joins.get(("f", b, k), 0)
            self.joins[("f", b, k)] = cnt + 1
            if cnt > 3:
                lo = f[0] if lo >= f[0] else -INF
                hi = f[1] if hi <= f[1] else INF
            if (lo, hi, ne) != (-INF, INF, frozenset()):
                s.facts[k] = (lo, hi, ne)
        # facts about join symbols override (their older facts are stale)
        for k in list(s.facts):
            if k in jfacts:
                del s.facts[k]
        for k, v in jfacts.items():
            s.facts[k] = v
        return s

    # ------------------------------------------------------------------ block
    def block(self, b, st):
        st = st.copy()
        states = [st]
        for i in self.fn.blocks[b].insts:
            if i.op == "phi":
                continue
            out = []
            for s in states:
                self.steps += 1
                r = self.step(s, i)
                if r is None:
                    continue
                out.extend(r)
            states = out
            if not states:
                return

    def edge(self, st, frm, to):
        """move along an edge: evaluate phis, then arrive"""
        b = self.fn.blocks[to]
        phis = []
        for i in b.insts:
            if i.op != "phi":
                break
            for pb, v in i.ops:
                if pb == frm:
                    phis.append((i, self.val(st, v)))
                    break
        for i, v in phis:
            st.regs[i.id] = v
        if to in self.S["transparent"]:
            # short-circuit evaluation blocks are followed without joining
            self.prune(to, st)
            for i in b.insts:
                if i.op == "phi":
                    continue
                self.steps += 1
                r = self.step(st, i)
                if not r:
                    return
                st = r[0]
            return
        self.arrive(to, st)

    def binop(self, op, a, b):
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            try:
                r = {"add": x + y, "sub": x - y, "mul": x * y, "and": x & y, "or": x | y, "xor": x ^ y}.get(op)
            except Exception:
                r = None
            if r is not None:
                return ("c", r)
            if op == "shl" and 0 <= y < 64:
                return ("c", x << y)
            if op in ("ashr", "lshr") and 0 <= y < 64:
                return ("c", x >> y)
        if op == "sub" and b[0] == "c":
            op, b = "add", ("c", -b[1])
        if op == "add" and a[0] == "c":
            a, b = b, a
        if op == "add" and b == ZERO:
            return a
        if op == "add" and b[0] == "c" and a[0] == "op" and a[1] == "add" and a[3][0] == "c":
            return self.binop("add", a[2], ("c", a[3][1] + b[1]))
        if op == "or" and b == ZERO:
            return a
        if op in ("and", "or") and a == b:
            return a
        v = ("op", op, a, b)
        return v if depth(v) <= self.c.DEPTH else None

    def step(self, st, i):
        op = i.op
        c = self.c
        if op == "load":
            a = self.val(st, i.ops[0])
            r = c.on_load(self, st, i, a)
            if r is not None:
                return r
            v = self.load(st, i, a)
            st.regs[i.id] = v
            return [st]
        if op == "store":
            v = self.val(st, i.ops[0])
            a = self.val(st, i.ops[1])
            r = c.on_store(self, st, i, a, v)
            if r is not None:
                return r
            if self.trackable(a):
                self.store(st, a, v)
            return [st]
        if op in ("getelementptr",):
            b = self.val(st, i.ops[0])
            v = mkgep(b, self.stepvals(st, i.steps))
            if v[0] == "gep" and depth(v) > max(6, self.c.DEPTH):
                v = self.fresh(st, i)
            st.regs[i.id] = v
            return [st]
        if op in CASTS:
            v = self.val(st, i.ops[0])
            if c.on_inst is not None:
                v = c.on_inst(self, st, i, [v]) or v
            st.regs[i.id] = v
            return [st]
        if op == "icmp":
            a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            if a[0] == "undef" or b[0] == "undef":
                c.on_use(self, st, i, a if a[0] == "undef" else b, "compare")
                st.regs[i.id] = self.fresh(st, i)
                return [st]
            # (x != 0) on a condition is the condition
            if b == ZERO and a[0] == "op" and (a[1].startswith("icmp") or a[1] == "not") and i.pred in ("eq", "ne"):
                st.regs[i.id] = a if i.pred == "ne" else ("op", "not", a, ZERO)
                return [st]
            v = ("op", "icmp " + i.pred, a, b)
            if depth(v) > max(6, self.c.DEPTH):
                v = self.fresh(st, i)
            st.regs[i.id] = v
            return [st]
        if op == "br":
            if not i.ops:
                self.edge(st, i.block.id, i.succ[0])
                return None
            cv = self.val(st, i.ops[0])
            if cv[0] == "undef":
                c.on_use(self, st, i, cv, "branch")
                cv = ("v", "undef%d" % i.id, 0)
            c.on_branch(self, st, i, cv)
            for truth, tgt in ((True, i.succ[0]), (False, i.succ[1])):
                s = st.copy()
                if s.assume(cv, truth):
                    s.trail = (i, truth, st.trail)
                    self.edge(s, i.block.id, tgt)
            return None
        if op == "switch":
            v = self.val(st, i.ops[0])
            if v[0] == "undef":
                c.on_use(self, st, i, v, "branch")
                v = ("v", "undef%d" % i.id, 0)
            c.on_branch(self, st, i, v)
            for val, tgt in i.cases:
                s = st.copy()
                if s.assume_rel("eq", v, ("c", val)):
                    s.trail = (i, val, st.trail)
                    self.edge(s, i.block.id, tgt)
            s = st.copy()
            ok = True
            for val, _ in i.cases:
                if not s.assume_rel("ne", v, ("c", val)):
                    ok = False
                    break
            if ok:
                s.trail = (i, "default", st.trail)
                self.edge(s, i.block.id, i.default)
            return None
        if op == "ret":
            self.exits += 1
            c.on_ret(self, st, i, self.val(st, i.ops[0]) if i.ops else None)
            return None
        if op == "unreachable":
            return None
        if op == "alloca":
            v = ("al", i.id)
            st.regs[i.id] = v
            st.dflt[v] = "undef"
            return [st]
        if op == "call":
            args = [self.val(st, a) for a in i.ops]
            r = c.on_call(self, st, i, args)
            if r is None:
                r = self.default_call(st, i, args)
                if r is None:
                    return None
                out = []
                for s in r:
                    if i.ty and i.ty != "void" and i.id not in s.regs:
                        s.regs[i.id] = self.fresh(s, i)
                    q = c.after_call(self, s, i, args)
                    out.extend([s] if q is None else q)
                r = out
            for s in r:
                if i.ty and i.id not in s.regs:
                    s.regs[i.id] = self.fresh(s, i)
            return r
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "ashr", "lshr", "udiv", "sdiv", "urem", "srem"):
            a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            if a[0] == "undef" or b[0] == "undef":
                st.regs[i.id] = a if a[0] == "undef" else b
                return [st]
            ca, cb = st.const(a), st.const(b)
            if ca is not None:
                a = ("c", ca)
            if cb is not None:
                b = ("c", cb)
            if op == "xor" and b[0] == "c" and b[1] in (1, -1) and i.ty == "i1":
                st.regs[i.id] = ("op", "not", a, ZERO) if a[0] != "c" else ("c", 1 - (a[1] & 1))
                return [st]
            v = self.binop(op, a, b)
            if v is None or (v[0] == "op" and i.block.id in self.S["inloop"] and depth(v) > 2 and op == "add" and False):
                v = self.fresh(st, i)
            st.regs[i.id] = v
            return [st]
        if op == "select":
            cv = self.val(st, i.ops[0])
            out = []
            for truth, k in ((True, 1), (False, 2)):
                s = st.copy()
                if cv[0] == "undef" or s.assume(cv, truth):
                    s.regs[i.id] = self.val(s, i.ops[k])
                    if c.on_select is not None:
                        c.on_select(self, s, i, cv, truth)
                    out.append(s)
            return out
        if op in ("atomicrmw", "cmpxchg"):
            a = self.val(st, i.ops[0])
            st.mem.pop(a, None)
            st.regs[i.id] = self.fresh(st, i)
            c.on_rmw(self, st, i, a, st.regs[i.id])
            return [st]
        # anything else: unknown value
        if i.ty:
            v = c.on_inst(self, st, i, [self.val(st, a) for a in i.ops]) if c.on_inst is not None else None
            st.regs[i.id] = v if v is not None else self.fresh(st, i)
        return [st]

    def default_call(self, st, i, args):
        n = i.callee_full
        w = self.w
        st.regs.pop(i.id, None)
        if n and n.startswith("llvm."):
            if n.startswith("llvm.memset") and args[1] == ZERO:
                self.kill_obj(st, args[0], "zero" if args[0][0] != "gep" else "unk")
                if args[0][0] == "gep":
                    pass
                return [st]
            if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
                self.copy_obj(st, args[0], args[1], args[2])
                return [st]
            if n.startswith("llvm.memset"):
                self.kill_obj(st, args[0])
                return [st]
            return [st]
        f = w.m.funcs.get(n) if n else None
        if n in ALLOC:
            self.alloc(st, i, n, args)
            return [st]
        if n == "rt_free_at":
            return [st]
        if f is not None and f.decl:
            self.ext_call(st, i, n, args)
            return [st]
        if f is None:
            # indirect: may run anything
            for a in args:
                if root(a)[0] == "al":
                    self.kill_obj(st, a)
            targets = w.targets(self.fn, i)
            if targets is None:
                self.kill_classes(st, {"*"})
            else:
                cl = set()
                for t in targets:
                    cl |= w.modset(t)
                self.kill_classes(st, cl)
            return [st]
        if f.name in w.noreturn:
            return None
        cl = w.modset(f.name)
        self.kill_classes(st, cl)
        wp = w.writes_param(f.name)
        for k, a in enumerate(args):
            if k in wp or f.vararg:
                self.kill_arg(st, a, wp.get(k, "*"))
        return [st]

    def kill_arg(self, st, a, what):
        """callee may write the pointee of a; what: '*' everything, else set of fields ('' = plain)"""
        if what == "*" or a[0] == "al" and "" in what:
            if a[0] in ("al", "gep", "p", "v", "j", "g"):
                self.kill_obj(st, a)
            return
        for k in list(st.mem):
            if k == a and "" in what:
                del st.mem[k]
            elif k[0] == "gep" and root(k) == root(a) and lastfield(k) in what:
                del st.mem[k]
        if root(a)[0] == "al" and what:
            self.kill_obj(st, a)

    def copy_obj(self, st, d, s, n):
        self.kill_obj(st, d)
        # struct copy: cells below s appear below d
        add = {}
        for k, v in st.mem.items():
            if k == s:
                add[d] = v
            elif k[0] == "gep" and k[1] == root(s):
                pre = s[2] if s[0] == "gep" else ()
                if k[2][:len(pre)] == pre:
                    add[mkgep(d, k[2][len(pre):])] = v
        st.mem.update(add)
        if s[0] != "gep" and d[0] != "gep" and s in st.dflt:
            st.dflt[d] = st.dflt[s]

    def ext_call(self, st, i, n, args):
        w = self.w
        out = w.ext_writes(n, len(args))
        for k in out:
            if k < len(args):
                a = args[k]
                if n == "memset" and args[1] == ZERO and a[0] != "gep":
                    self.kill_obj(st, a, "zero")
                elif n in ("memcpy", "memmove"):
                    self.copy_obj(st, a, args[1], args[2])
                else:
                    self.kill_obj(st, a)

    def alloc(self, st, i, n, args):
        if not i.ty:
            return
        v = self.fresh(st, i)
        st.regs[i.id] = v
        st.facts[("fresh", v)] = (0, 0, frozenset())
        k = ALLOC[n]
        if n.endswith("_at") and args[-1] == ONE:
            st.facts[v] = (-INF, INF, frozenset({0}))
        st.dflt[v] = k


# allocators: content of the new object
ALLOC = {"malloc": "undef", "calloc": "zero", "strdup": "unk", "strndup": "unk", "realloc": "unk", "__strdup": "unk", "__strndup": "unk",
         "rt_malloc_at": "undef", "rt_calloc_at": "zero", "rt_realloc_at": "unk"}
FREE = ("free", "rt_free_at")

DEAD = object()


def depth(v):
    if v[0] == "op":
        return 1 + max(depth(v[2]), depth(v[3]))
    if v[0] == "gep":
        d = depth(v[1])
        for s in v[2]:
            if s[0] == "i" and isinstance(s[1], tuple):
                d = max(d, depth(s[1]))
        return 1 + d if len(v[2]) < 12 else 99
    return 0


def trail_text(st, limit=12):
    out = []
    t = st.trail
    while t and len(out) < limit:
        i, truth, t = t
        out.append("%s:%d %s" % (i.loc[0][1].split("/")[-1] if i.loc else "?", i.line, {True: "true", False: "false"}.get(truth, truth)))
    return " <- ".join(out)
