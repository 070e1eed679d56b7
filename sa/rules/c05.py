"""Reference counts: one atomic step changes the count and its own result decides who destroys."""
import re
import ir
from collections import defaultdict
from engine import *
from locks import fresh_root

RETAIN, RELEASE = "rtRetainable_retainInternal", "rtRetainable_releaseInternal"


def cell(f, addr):
    p = ir.ap(f, addr)
    return "%s.%s" % (p[2], p[3]) if p[0] == "fld" else None


class Rel(Client):
    """in a function that drops a reference: what happens to the object after the decrement"""
    K = 4

    def __init__(self, f, rep):
        self.f = f
        self.rep = rep
        self.subs = 0

    def init_ts(self, fn):
        return ()          # (object root, result symbol, destroyed)

    def ts_live(self, ts):
        return [x for x in ts[:2]]

    def on_rmw(self, eng, st, i, addr, sym):
        if i.rmw == "sub":
            self.subs += 1
            st.ts = (root(addr), sym, False)

    def last(self, st):
        return bool(st.ts) and st.const(st.ts[1]) == 1

    def touch(self, st, i, addr, what):
        if st.ts and root(addr) == st.ts[0] and not self.last(st):
            self.rep("C05.decide", i, "%s %s the object after dropping its reference without having been the last: only the result of the decrement itself may decide" % (self.f.dname, what), st)

    def on_load(self, eng, st, i, addr):
        self.touch(st, i, addr, "reads")

    def on_store(self, eng, st, i, addr, val):
        self.touch(st, i, addr, "writes")

    def on_call(self, eng, st, i, args):
        if not st.ts or (i.callee_name or "").startswith("llvm."):
            return None
        if any(root(a) == st.ts[0] for a in args):
            self.touch(st, i, st.ts[0], "destroys or uses")
            if st.ts[2]:
                self.rep("C05.decide", i, "%s destroys the object twice" % self.f.dname, st)
            st.ts = st.ts[:2] + (True,)
        return None

    def on_ret(self, eng, st, i, val):
        if st.ts and not st.ts[2]:
            lo, hi = st.rng(st.ts[1])
            f = st.facts.get(st.ts[1])
            if lo <= 1 <= hi and not (f and 1 in f[2]):
                self.rep("C05.decide", i, "%s can return after the last reference was dropped without destroying the object" % self.f.dname, st)


class Create(Client):
    """in a function that initialises a count: the object is fresh, and exactly one reference exists when it is handed out"""
    K = 3

    def __init__(self, f, cells, rep):
        self.f, self.cells, self.rep = f, cells, rep

    def init_ts(self, fn):
        return ()          # sorted ((object, count), ...)

    def ts_live(self, ts):
        return [x for x, _ in ts]

    def put(self, st, o, n):
        d = dict(st.ts)
        if n is None:
            d.pop(o, None)
        else:
            d[o] = n
        st.ts = tuple(sorted(d.items(), key=repr))

    def on_store(self, eng, st, i, addr, val):
        c = lastfield(addr)
        if c and "%s.%s" % c in self.cells:
            o = root(addr)
            if ("fresh", o) not in st.facts:
                self.rep("C05.atomic", i, "%s.%s" % c, "%s sets the reference count of a shared object with a plain store" % self.f.dname, st)
                return
            n = st.const(val)
            if n is None:
                self.rep("C05.create", i, "%s.%s" % c, "%s creates an object with an unknown number of references" % self.f.dname, st)
                return
            self.put(st, o, n)

    def on_rmw(self, eng, st, i, addr, sym):
        c = lastfield(addr)
        d = dict(st.ts)
        if root(addr) in d and c and "%s.%s" % c in self.cells:
            self.put(st, root(addr), d[root(addr)] + (1 if i.rmw == "add" else -1))

    def on_call(self, eng, st, i, args):
        d = dict(st.ts)
        n = i.callee_name
        if not args or root(args[0]) not in d:
            return None
        o = root(args[0])
        if n == RETAIN:
            self.put(st, o, d[o] + 1)
        elif n == RELEASE or n == "free":
            self.put(st, o, None)
        elif not (n or "").startswith(("llvm.", "mem")) and d[o] < 1:
            pass
        return None

    def on_ret(self, eng, st, i, val):
        for o, n in st.ts:
            if n != 1:
                self.rep("C05.create", i, "count", "%s hands out a new object whose reference count is %d, not one" % (self.f.dname, n), st)


def norm(t):
    return re.sub(r"(_t)?\**$", "", t or "").lstrip("_").lower()


def param_struct(w, f, k=0, seen=()):
    """struct type a function uses its parameter as"""
    out = defaultdict(int)
    for i in f.insts():
        if i.op == "getelementptr" and ir.strip(f, i.ops[0]) == k and i.steps:
            for s in i.steps:
                if s[0] == "f":
                    out[s[1]] += 1
                    break
    return max(out, key=out.get) if out else None


def run(w, res):
    m = w.m
    cells = set()
    nsub = nadd = 0
    for f in m.defined():
        for i in f.insts():
            if i.op == "atomicrmw" and i.rmw == "sub":
                c = cell(f, i.ops[0])
                if c:
                    cells.add(c)
    relfn = set()
    stores = loads = 0
    for f in m.defined():
        rmws = [i for i in f.insts() if i.op in ("atomicrmw", "cmpxchg") and cell(f, i.ops[0]) in cells]
        nadd += sum(1 for i in rmws if i.rmw == "add")
        st0 = [i for i in f.insts() if i.op == "store" and cell(f, i.ops[1]) in cells]
        if st0 and not f.inlinedAway:
            stores += len(st0)
            seen0 = set()

            def rep0(rule, i, obj, text, st, f=f, seen0=seen0):
                if (rule, text) not in seen0:
                    seen0.add((rule, text))
                    res.add(rule, f.dname, obj, i.where(), text, trail_text(st))
            e = Engine(w, f, Create(f, cells, rep0)).run()
            if e.over:
                raise RuntimeError("path budget exceeded in " + f.name)
        subs = [i for i in rmws if i.rmw == "sub"]
        for i in rmws:
            if i.rmw in ("add", "sub") and i.ops[1] != ["c", 1, 32] and not (isinstance(i.ops[1], list) and i.ops[1][1] == 1):
                res.add("C05.atomic", f.dname, cell(f, i.ops[0]), i.where(), "%s changes a reference count by something other than one" % f.dname)
        if subs:
            nsub += len(subs)
            relfn.add(f.name)
            seen = set()

            def rep(rule, i, text, st, f=f, seen=seen):
                k = (rule, f.dname, text)
                if k not in seen:
                    seen.add(k)
                    res.add(rule, f.dname, cells_of[f.name], i.where(), text, trail_text(st))
            cells_of = {f.name: cell(f, subs[0].ops[0])}
            e = Engine(w, f, Rel(f, rep)).run()
            if e.over:
                raise RuntimeError("path budget exceeded in " + f.name)
    # no branch anywhere else on a plain read of a count, except inside a destructor reached only from a release
    destr = set()
    nrel = 0
    for f in m.defined():
        for i in f.calls(RELEASE):
            nrel += 1
            d = i.ops[1]
            if not (isinstance(d, list) and d[0] == "f"):
                res.add("C05.destructor", f.dname, "unknown", i.where(), "%s releases an object with an unknown destructor" % f.dname)
                continue
            destr.add(d[1])
            g = m.funcs.get(d[1])
            # the destructor must be for this type of object
            src = ir.strip(f, i.ops[0])
            want = None
            if isinstance(src, int) and src < len(f.args) and src + 1 < len(f.dtypes):
                want = norm(f.dtypes[src + 1])
            have = param_struct(w, g) if g and not g.decl else None
            if want and have and want not in ("", "void", "*") and norm(have) != want and norm(have) != "rtretainable":
                res.add("C05.destructor", f.dname, d[1], i.where(), "%s releases a %s with the destructor of %s" % (f.dname, want, have))
    for f in m.defined():
        if f.name in relfn:
            for i in f.calls():
                t = i.callee_full
                if t and t in m.funcs and not m.funcs[t].decl and any(ir.strip(f, a) == 0 for a in i.ops):
                    destr.add(t)
    for f in m.defined():
        if f.inlinedAway:
            continue
        for i in f.insts():
            if i.op == "load" and cell(f, i.ops[0]) in cells:
                loads += 1
                if f.name in destr or f.name in relfn:
                    continue
                if any(u.op in ("icmp", "switch", "br") for u in all_uses(f, i.id)):
                    res.add("C05.decide", f.dname, cell(f, i.ops[0]), i.where(), "%s decides on a plain read of a reference count" % f.dname)
    # destructors run only from the release
    for f in m.defined():
        if f.inlinedAway or f.name in relfn:
            continue
        for i in f.calls():
            if i.callee_name in destr and f.name not in destr:
                res.add("C05.caller", f.dname, i.callee_name, i.where(), "%s destroys the object directly instead of dropping its reference" % f.dname)
    res.count("counted_cells", len(cells), 2)
    res.count("decrement_sites", nsub, 2)
    res.count("increment_sites", nadd, 5)
    res.count("initial_stores", stores, 10)
    res.count("release_calls", nrel, 15)
    res.count("destructors", len(destr), 6)
    res.rule("C05.atomic: a count changes only by atomic +-1 except the store that initialises a fresh object; C05.create: a creator leaves one reference; "
             "C05.decide: after the decrement the object is touched exactly when the result of that decrement says it was the last reference, and then it is destroyed (path-sensitive); "
             "C05.destructor: the destructor passed is that of the object's type; C05.caller: destructors are called by nobody else")


def all_uses(f, v, depth=0):
    out = []
    for u in f.uses().get(v, ()):
        out.append(u)
        if u.op in ir.CASTS or u.op in ("phi", "add", "sub", "and") and depth < 3:
            out += all_uses(f, u.id, depth + 1)
    return out
