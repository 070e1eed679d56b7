"""Persisted subscriptions: every change of the list is followed by a save, what is saved is what is loaded, and a bad file is discarded."""
from collections import defaultdict
import re
import ir
from engine import *
from rules.c22 import strip0, base

S, SL, B = "_rbusSubscription", ("_rbusSubscriptions", "subList"), "_rbusBuffer"
NOT = "RBUS_FILTER_OPERATOR_NOT"
GROW = {"rtList_PushBack", "rtList_PushFront", "rtList_InsertBefore", "rtList_InsertAfter"}
WHOLE = {"rtList_Destroy"}
ALLOC = {"rt_calloc_at", "rt_malloc_at", "malloc", "calloc"}


def fld(v):
    """(object, struct, field) of a value that is a field"""
    if v is not None and v[0] == "op" and v[1].startswith("fld:"):
        return (v[2],) + tuple(v[1][4:].split("."))
    return None


class Common(Client):
    """loads of fields of subscriptions, registries, buffers and filters carry where they come from"""
    STRUCTS = {S, "_rbusSubscriptions", B}

    def on_load(self, eng, st, i, addr):
        b, f = base(addr)
        if f and f[0] in self.STRUCTS:
            m = st.mem.get(addr)
            if m is None or m[0] in ("undef", "j"):
                m = ("op", "fld:%s.%s" % f, b, ZERO)
            st.regs[i.id] = m
            return [st]
        return None


def islist(a):
    f = fld(a)
    return f is not None and f[1:] == SL


# ---------------------------------------------------------------- every change is saved

class Dirty(Common):
    """typestate: where the list of subscriptions was changed since it was last saved; registry whose list is gone"""
    K = 12
    KHEAD = 6
    JOINBEST = True

    def __init__(self, w, f, R, start, ctx=()):
        self.w, self.f, self.R, self.start, self.ctx = w, f, R, start, ctx
        self.out = defaultdict(set)
        # what is returned, where the ways of returning meet
        self.meet = {i.ops[0] for i in f.insts() if i.op == "ret" and i.ops and isinstance(i.ops[0], int)}
        self.meet = {x for x in self.meet if x in f.defs and f.defs[x].op == "phi"} if self.status(f) else set()

    def init_state(self, fn, st):
        for k, c in self.ctx:
            st.assume(("op", "icmp eq", ("p", k), ZERO), c == 0)

    @staticmethod
    def status(f):
        return f.dtypes and (f.dtypes[0] in ("int", "bool", "rbusError_t", "rbusCoreError_t", "_rbusError") or f.dtypes[0].endswith("*") or f.dtypes[0].endswith("_t"))

    def cls(self, st, v):
        c = st.const(v)
        return "zero" if c == 0 else "nonzero" if c is not None or st.isnull(v) is False else "any"

    def ts_prune(self, st):
        for x in self.meet:
            if x in st.regs:
                return st.ts[:2] + (self.cls(st, st.regs[x]),)
        return st.ts[:2] + ("",)

    def init_ts(self, fn):
        return (self.start, None, "")

    def ts_live(self, ts):
        return [ts[1]] if ts[1] else []

    def on_store(self, eng, st, i, addr, val):
        b, f = base(addr)
        if f and f[0] == S and f[1] in self.R.saved and root(b)[0] != "al" and b not in self.fresh(st):
            st.ts = ("%s (%s)" % (i.where(), self.f.dname),) + st.ts[1:]
        return None

    def fresh(self, st):
        return self.R.fresh[self.f.name]

    def on_call(self, eng, st, i, args):
        n = i.callee_full
        g = self.w.m.funcs.get(n) if n else None
        if n in self.R.savers:
            st.ts = (None,) + st.ts[1:]
            return None
        if args and i.callee_name in self.R.mutators and islist(args[0]):
            self.R.changes.add((self.f.dname, i.id))
            if i.callee_name in WHOLE:
                st.ts = (st.ts[0], fld(args[0])[0], "")
            else:
                st.ts = (i.where(),) + st.ts[1:]
            return None
        if i.callee_name in ("free", "rt_free_at") and st.ts[1] == args[0]:
            st.ts = (None, None, "")
            return None
        return None

    def after_call(self, eng, st, i, args):
        n = i.callee_full
        g = self.w.m.funcs.get(n) if n else None
        if g is None or n in self.R.savers:
            return None
        ctx = ()
        if n in self.R.relevant:
            ctx = tuple((k, st.const(a)) for k, a in enumerate(args) if k + 1 < len(g.dtypes) and g.dtypes[k + 1] in ("bool", "_Bool") and st.const(a) is not None)
            if ctx:
                self.R.ctxs[n].add(ctx)
        s = self.R.sums.get((n, ctx)) or self.R.sums.get((n, ()))
        if not s:
            return None
        out = []
        for cl, ds in sorted(s.items()):
            for d in sorted(ds, key=repr):
                y = st.copy()
                if cl in ("zero", "nonzero") and i.id in y.regs and not y.assume(("op", "icmp eq", y.regs[i.id], ZERO), cl == "zero"):
                    continue
                if d is not None:
                    y.ts = (None if d == "saved" else d,) + y.ts[1:]
                out.append(y)
        return out

    def on_ret(self, eng, st, i, val):
        cl = "any"
        if val is not None and self.status(self.f):
            cl = st.ts[2] or self.cls(st, val)
        self.out[cl].add(st.ts[0])


def dirty(w, res, R, live):
    m = w.m
    R.sums, R.changes, R.relevant, R.ctxs = {}, set(), set(), defaultdict(lambda: {()})
    cells = {f.name for f in live if any(i.op == "store" and ir.apclass(ir.ap(f, i.ops[1])) in R.savedcells for i in f.insts())}
    for rnd in range(16):
        new, nctx = {}, sum(map(len, R.ctxs.values()))
        for f in live:
            if f.name in R.savers or f.name in R.loaders:
                continue
            if not (f.name in R.relevant or f.name in cells or any(
                    i.callee_name in R.mutators or i.callee_full in R.savers or (i.callee_full, ()) in R.sums for i in f.calls())):
                continue
            R.relevant.add(f.name)
            for ctx in sorted(R.ctxs[f.name]):
                # from a clean start, and from a changed list
                a, b = Dirty(w, f, R, None, ctx), Dirty(w, f, R, "before", ctx)
                for c in (a, b):
                    if Engine(w, f, c).run().over:
                        raise RuntimeError("path budget exceeded in " + f.name)
                s = {}
                for cl in set(a.out) | set(b.out):
                    ds = {d for d in a.out.get(cl, ()) if d is not None}
                    # a path that keeps a changed list changed leaves the caller's state alone; one that does not has saved
                    if "before" in b.out.get(cl, ()):
                        ds.add(None)
                    if None in b.out.get(cl, ()):
                        ds.add("saved")
                    s[cl] = ds or {None}
                if any(ds - {None} for ds in s.values()):
                    new[f.name, ctx] = s
        if new == R.sums and nctx == sum(map(len, R.ctxs.values())):
            break
        R.sums = new
    else:
        raise RuntimeError("summaries of list changes do not settle")
    nroots = 0
    for f in live:
        s = R.sums.get((f.name, ()))
        if not s:
            continue
        callers = [i for i in m.callers().get(f.name, ()) if not i.fn.inlinedAway]
        if callers and f.dname not in w.api:
            continue
        nroots += 1
        for cl, ds in sorted(s.items()):
            for d in sorted(x for x in ds if x and x != "saved"):
                res.add("C18.saved", f.dname, "subList", d, "%s returns after the list of subscriptions was changed and not saved" % f.dname, "changed at " + d)
    res.count("list_changes", len(R.changes), 4)
    res.count("functions_changing_subscriptions", len({n for n, c in R.sums}), 10)
    res.count("operations_checked", nroots, 4)


# ---------------------------------------------------------------- what is written for one subscription

class Save(Common):
    """typestate: the subscription being written, what was written for it, buffer contents written to the file, file state"""
    K = 40
    KHEAD = 8

    def __init__(self, w, f, R, rep):
        self.w, self.f, self.R, self.rep = w, f, R, rep

    def init_ts(self, fn):
        return (None, (), False, None, frozenset())

    def ts_live(self, ts):
        return [x for x in (ts[0],) if x] + [e[3] for e in ts[1] if e[3] is not None]

    def on_call(self, eng, st, i, args):
        n = i.callee_name or ""
        cur, ev, wrote, op, done = st.ts
        if n == "strlen":
            st.regs[i.id] = ("op", "len", args[0], ZERO)
            return [st]
        if n in ("snprintf", "__snprintf_chk", "sprintf"):
            self.R.paths[self.f.dname].add(pathof(st, n, args))
            return None
        if n.startswith("fopen"):
            mode = text(args[1])
            if mode is None or not mode.startswith("w"):
                self.rep("C18.file", i, "mode", "%s does not start the file anew" % self.f.dname, st)
            op = ("v", i.id, 0)
            st.regs[i.id] = op
            st.ts = (cur, ev, wrote, op, done)
            return [st]
        if n == "rtListItem_GetData":
            self.item(st, i)
            v = ("v", i.id, 0)
            eng.store(st, args[1], v)
            st.regs[i.id] = ZERO
            st.ts = (v, (), wrote, op, done)
            return [st]
        if n == "rtListItem_GetNext" and not ev:
            return None            # the step may come before the entry is written; the next one or the end of the file closes it
        if n == "rtListItem_GetNext" or n == "rtList_GetFront":
            self.item(st, i)
            st.ts = (None, (), wrote, op, done)
            return None
        t = self.R.tlv.get(n)
        if t is not None:
            v = args[1]
            d = self.desc(st, v)
            if t[0] == "str" and (len(args) < 3 or not strlen1(st, args[2], args[1])):
                d = "?"
            st.ts = (cur, ev + ((t, d, i.id, None),), wrote, op, done)
            return None
        if n == "rbusFilter_Encode":
            st.ts = (cur, ev + ((("filter",), self.desc(st, args[0]), i.id, None),), wrote, op, done)
            return None
        if n == "fwrite":
            d, c = fld(args[0]), fld(args[2])
            ok = d and c and d[1:] == (B, "data") and c[1:] == (B, "posWrite") and d[0] == c[0] and st.const(args[1]) == 1
            if not ok:
                c = fld(args[1])
                ok = d and c and d[1:] == (B, "data") and c[1:] == (B, "posWrite") and d[0] == c[0] and st.const(args[2]) == 1
            if not ok or wrote:
                self.rep("C18.file", i, "fwrite", "%s does not write exactly what was collected" % self.f.dname, st)
            self.item(st, i)
            st.ts = (None, (), True, op, done)
            return None
        return None

    def desc(self, st, v):
        f = fld(v)
        if f and f[1] == S:
            return f[2] if f[0] == st.ts[0] else "?"
        fl = ("op", "fld:%s.filter" % S, st.ts[0], ZERO) if st.ts[0] else None
        if fl is not None:
            c = st.const(v)
            nul = st.isnull(fl)
            if c is not None and nul is not None:
                return "filter?" if c == (0 if nul else 1) else "?"
            if v[0] == "op" and "icmp" in v[1] and fl in v[2:] and ZERO in v[2:]:
                return "filter?" if v[1].endswith("ne") else "?"
        return "?"

    def item(self, st, i):
        cur, ev, wrote, op, done = st.ts
        if cur is None or st.isnull(cur) is True:
            return
        fl = st.isnull(("op", "fld:%s.filter" % S, cur, ZERO))
        self.R.written.setdefault((tuple((e[0], e[1]) for e in ev), fl), (i, trail_text(st, 8)))

    def on_ret(self, eng, st, i, val):
        cur, ev, wrote, op, done = st.ts
        if op is not None and not wrote and st.isnull(op) is False and not (cur is not None and st.isnull(cur) is True):
            self.rep("C18.file", i, "unwritten", "%s leaves an empty file behind" % self.f.dname, st)
        if op is not None and st.isnull(op) is not True:
            self.R.nsaved += 1


def strlen1(st, v, s):
    """length of the text s with its ending 0"""
    return v[0] == "op" and v[1] == "add" and ("op", "len", s, ZERO) in v[2:] and any(st.const(x) == 1 for x in v[2:])


def text(v):
    return v[1] if v[0] == "s" else None


def pathof(st, n, args):
    """the format and what is put into it"""
    k = {"snprintf": 2, "__snprintf_chk": 4, "sprintf": 1}[n]
    return tuple((fld(a)[1:] if fld(a) else a if a[0] in ("s", "c") else "?") for a in args[k:])


# ---------------------------------------------------------------- what is read for one subscription

class Load(Common):
    """typestate: subscription being built and its state, reads, its fields, texts copied, pending step, how it ends"""
    K = 24
    KHEAD = 6
    DEPTH = 6
    NAMES = ("rec", "status", "reads", "bad", "removed", "kept", "dirty", "pending", "reason", "fields", "texts", "ep")

    def __init__(self, w, f, R, rep):
        self.w, self.f, self.R, self.rep = w, f, R, rep

    def init_ts(self, fn):
        return (None, "", (), False, False, False, False, None, False, (), (), 0)

    def upd(self, st, **k):
        st.ts = tuple(k.get(n, v) for n, v in zip(self.NAMES, st.ts))

    def get(self, st, n):
        return st.ts[self.NAMES.index(n)]

    def ts_live(self, ts):
        return ([ts[0]] if ts[0] else []) + [("op", "rd:" + k, ("c", n), ZERO) for n, k in enumerate(ts[2])] + ([ts[7]] if ts[7] else []) + [v for k, v in ts[9]]

    def ts_prune(self, st):
        rec, status = st.ts[:2]
        if rec is not None and status in ("listed", "freed"):
            s = set()
            for v in st.regs.values():
                leaves(v, s)
            for k, v in st.mem.items():
                leaves(v, s)
            if rec not in s:
                self.upd(st, rec=None, status="", reads=(), reason=False, fields=(), texts=(), ep=0, pending=None)
        return st.ts

    def on_load(self, eng, st, i, addr):
        b, f = base(addr)
        if not f:
            return None
        if f[0] == B:
            st.regs[i.id] = ("op", "fld:%s.%s" % f, ("c", self.get(st, "ep") if f[1] == "posRead" else 0), ZERO)
            return [st]
        if f[0] == S and b == st.ts[0]:
            st.regs[i.id] = dict(self.get(st, "fields")).get(f[1], ZERO)
            return [st]
        return Common.on_load(self, eng, st, i, addr)

    def put(self, st, f, v):
        d = dict(self.get(st, "fields"))
        d[f] = v
        self.upd(st, fields=tuple(sorted(d.items())))

    def on_store(self, eng, st, i, addr, val):
        b, f = base(addr)
        if f == (B, "posRead"):
            if st.ts[7] is not None and val[0] == "op" and val[1] == "add" and st.ts[7] in val[2:] and any(fld(x) and fld(x)[2] == "posRead" for x in val[2:]):
                self.upd(st, pending=None)
            else:
                self.rep("C18.layout", i, "step", "%s moves by something else than the text it read" % self.f.dname, st)
            self.upd(st, ep=self.get(st, "ep") + 1)
        elif f and f[0] == S and st.ts[0] is not None and b == st.ts[0]:
            self.put(st, f[1], val)
        return None

    def rd(self, st, i, kind):
        k = len(st.ts[2])
        if st.ts[7] is not None:
            self.rep("C18.layout", i, "step", "%s does not step over the text it read" % self.f.dname, st)
            self.upd(st, pending=None)
        self.upd(st, reads=st.ts[2] + (kind,), ep=self.get(st, "ep") + 1)
        return ("op", "rd:" + kind, ("c", k), ZERO)

    def give(self, eng, st, i, addr, v):
        b, f = base(addr)
        if f and f[0] == S and b == st.ts[0]:
            self.put(st, f[1], v)
        else:
            eng.store(st, addr, v)

    def fork(self, eng, st, i, kind, addr):
        ok, no = st.copy(), st.copy()
        self.give(eng, ok, i, addr, self.rd(ok, i, kind))
        if i.id is not None:
            ok.regs[i.id], no.regs[i.id] = ZERO, ("c", -1)
        self.upd(no, bad=True)
        self.R.nread += 1
        return [ok, no]

    def text(self, st, i, dst, ln):
        v = self.rd(st, i, "bytes")
        d = dict(self.get(st, "texts"))
        d[dst] = (v[2][1], ln)
        self.upd(st, texts=tuple(sorted(d.items(), key=repr)))
        self.R.nread += 1

    def on_call(self, eng, st, i, args):
        n = i.callee_name or ""
        rec, status, reads, bad, removed, kept = st.ts[:6]
        R = self.R
        if n in ("snprintf", "__snprintf_chk", "sprintf"):
            p = pathof(st, n, args)
            if any(isinstance(x, tuple) and x[0] == SL[0] for x in p):
                R.paths[self.f.dname].add(p)
            return None
        k = R.reads.get(n)
        if k is not None:
            b, f = base(args[1])
            size = {"u16": 2, "u32": 4, "i32": 4}.get(k)
            if f and f[0] == S and R.size.get(f[1]) and size and R.size[f[1]] != size:
                self.rep("C18.layout", i, f[1], "%s reads %d bytes into %s, which has %d" % (self.f.dname, size, f[1], R.size[f[1]]), st)
            return self.fork(eng, st, i, k, args[1])
        if n == "rbusFilter_Decode":
            return self.fork(eng, st, i, "filter", args[0])
        if n == "rbusBuffer_Read":
            ok, no = st.copy(), st.copy()
            self.upd(no, bad=True)
            no.regs[i.id], ok.regs[i.id] = ("c", -1), ZERO
            self.text(ok, i, args[1], args[2])
            return [ok, no]
        if "memcpy" in n or "memmove" in n:
            src = args[1]
            if src[0] == "gep" and fld(src[1]) and fld(src[1])[1:] == (B, "data") or fld(src) and fld(src)[1:] == (B, "data"):
                idx = [s[1] for s in src[2] if s[0] == "i" and s[1] != ZERO] if src[0] == "gep" else []
                if len(idx) != 1 or fld(idx[0]) != (("c", self.get(st, "ep")), B, "posRead"):
                    self.rep("C18.layout", i, "bytes", "%s reads a text from somewhere else than where it got to" % self.f.dname, st)
                if not self.bounded(st, args[2]):
                    self.rep("C18.bounds", i, "bytes", "%s copies a text without checking that the file has that much left" % self.f.dname, st)
                self.text(st, i, args[0], args[2])
                self.upd(st, pending=args[2])
                return [st]
            return None
        if n in ALLOC:
            sz = 1
            for a in args[:2 if "calloc" in n else 1]:
                c = st.const(a)
                sz = sz * c if c is not None and sz is not None else None
            if sz == R.recsize:
                if rec is not None and status == "new" and st.isnull(rec) is not True:
                    self.rep("C18.discard", i, "half-built", "%s leaves a subscription that is neither kept nor freed" % self.f.dname, st)
                v = ("v", i.id, 0)
                for key in [x for x in st.facts if any(y == v or y[0] == "op" and y[1].startswith(("rd:", "fld:" + B)) for y in ops(x))]:
                    del st.facts[key]
                self.upd(st, rec=v, status="new", reads=(), reason=False, fields=(), texts=(), ep=0, pending=None)
                z, y = st.copy(), st
                z.regs[i.id], y.regs[i.id] = ZERO, v
                self.upd(z, rec=None, status="", bad=True)
                y.facts[v] = (-INF, INF, frozenset({0}))
                return [y, z]
            return None
        if n in GROW and args and islist(args[0]):
            if rec is not None and args[1] == rec:
                if status != "new":
                    self.rep("C18.discard", i, "twice", "%s puts a subscription on the list that was freed or is there already" % self.f.dname, st)
                self.record(st, i)
                self.upd(st, status="listed", kept=True)
            else:
                self.rep("C18.discard", i, "other", "%s puts something else on the list of subscriptions" % self.f.dname, st)
            st.regs[i.id] = ZERO
            return [st]
        if n in R.freers or n in ("free", "rt_free_at"):
            if args and rec is not None and args[0] == rec:
                if status == "listed":
                    self.rep("C18.discard", i, "listed", "%s frees a subscription that is on the list" % self.f.dname, st)
                elif status == "freed":
                    self.rep("C18.discard", i, "freed", "%s frees a subscription twice" % self.f.dname, st)
                elif not bad and self.complete(st) and not self.get(st, "reason"):
                    self.rep("C18.drop", i, "dropped", "%s drops a subscription whose listener may be there" % self.f.dname, st)
                if not bad and self.complete(st):
                    self.upd(st, status="freed", dirty=True)
                else:
                    self.upd(st, status="freed", bad=True)
            return [st]
        if n in ("remove", "unlink"):
            self.upd(st, removed=True, dirty=kept)
            return None
        if i.callee_full in R.savers:
            self.upd(st, dirty=False)
            return [st]
        if n in ("rtList_GetSize", "rtList_GetFront") and islist(args[0]):
            v = ("v", i.id, 0)
            eng.store(st, args[1], v if kept else ZERO)
            if kept:
                st.facts[v] = (1 if n.endswith("Size") else -INF, INF, frozenset({0}))
            st.regs[i.id] = ZERO
            return [st]
        if n in R.alive:
            a, b = st.copy(), st.copy()
            a.regs[i.id], b.regs[i.id] = ("c", 1), ZERO
            self.upd(b, reason=True)
            return [a, b]
        if n in ("access", "kill"):
            a, b = st.copy(), st.copy()
            a.regs[i.id], b.regs[i.id] = ZERO, ("c", -1)
            self.upd(b, reason=True)
            return [a, b]
        return None

    def bounded(self, st, ln):
        """what is left of the file is known to be at least the length"""
        for v, (lo, hi, ne) in st.facts.items():
            if v[0] == "op" and v[1].startswith("icmp ") and v[1][-2:] in ("lt", "le") and lo == hi == 1:
                d = lin(v[2])
                for k, n in lin(v[3]).items():
                    d[k] = d.get(k, 0) - n
                c = d.pop(1, 0)
                d = {k: n for k, n in d.items() if n}
                got = {("len" if k == ln else fld(k)[2] if fld(k) and fld(k)[1] == B and (fld(k)[2] != "posRead" or fld(k)[0] == ("c", self.get(st, "ep"))) else k): n for k, n in d.items()}
                if got == {"len": 1, "posRead": 1, "posWrite": -1} and c >= 0:
                    return True
        return False

    def where(self, st):
        """read -> field"""
        out = {}
        texts = dict(self.get(st, "texts"))
        for f, v in self.get(st, "fields"):
            if f not in self.R.fields:
                continue
            if v in texts:
                out[texts[v][0]] = f
                continue
            for x in ops(v):
                if x[0] == "op" and x[1].startswith("rd:"):
                    out[x[2][1]] = f
                    break
        return out

    def complete(self, st):
        return bool(st.ts[0]) and st.ts[2][-1:] != ("u16",) and set(self.R.fields) - {"filter"} <= set(self.where(st).values())

    def record(self, st, i):
        rec, status, reads, bad = st.ts[:4]
        if bad:
            self.rep("C18.discard", i, "bad", "%s keeps a subscription although reading it failed" % self.f.dname, st)
            return
        w = self.where(st)
        texts = dict(self.get(st, "texts")).values()
        seq, k = [], 0
        while k < len(reads):
            if reads[k] == "filter":
                seq.append((("filter",), w.get(k, "?")))
                k += 1
                continue
            if reads[k:k + 2] != ("u16", "u16") or k + 2 >= len(reads):
                seq.append((("?",) + reads[k:k + 3], "?"))
                k += 1
                continue
            tag = known(st, ("op", "rd:u16", ("c", k), ZERO))
            ln = ("op", "rd:u16", ("c", k + 1), ZERO)
            kind = reads[k + 2]
            name = w.get(k + 2)
            if kind == "bytes":
                ok = any(t[0] == k + 2 and t[1] == ln for t in texts)
                seq.append((("str", tag) if ok else ("str?", tag), name or "?"))
            else:
                n = known(st, ln)
                if name is None:
                    v = ("op", "rd:" + kind, ("c", k + 2), ZERO)
                    nz = st.isnull(v)
                    has = "filter" in reads
                    name = "filter?" if nz is not None and nz != has else "?"
                seq.append(((kind, tag, n), name))
            k += 3
        self.R.loaded.setdefault((tuple(seq), "filter" not in reads), (i, trail_text(st, 8)))

    def on_ret(self, eng, st, i, val):
        rec, status, reads, bad, removed, kept, dirty_ = st.ts[:7]
        if rec is not None and status == "new" and st.isnull(rec) is not True:
            self.rep("C18.discard", i, "half-built", "%s leaves a subscription that is neither kept nor freed" % self.f.dname, st)
        if bad and not removed:
            self.rep("C18.discard", i, "file", "%s leaves a file in place that does not parse" % self.f.dname, st)
        if dirty_:
            self.rep("C18.saved", i, "load", "%s returns with the file no longer matching what was loaded" % self.f.dname, st)


def ops(v, d=0):
    yield v
    if v[0] == "op":
        for x in v[2:]:
            if isinstance(x, tuple):
                yield from ops(x, d + 1)


def leaves1(v):
    return set(ops(v))


def lin(v):
    """linear form: atom -> coefficient, 1 -> constant"""
    if v[0] == "c":
        return {1: v[1]}
    if v[0] == "op" and v[1] in ("add", "sub"):
        d = dict(lin(v[2]))
        for k, n in lin(v[3]).items():
            d[k] = d.get(k, 0) + (n if v[1] == "add" else -n)
        return d
    return {v: 1}


def known(st, v):
    lo, hi = st.rng(v)
    return lo if lo == hi else None


def run(w, res):
    m = w.m
    live = [f for f in m.defined() if not f.inlinedAway]

    class R:
        pass
    R = R()
    seen = {}

    def mk(f):
        def rep(rule, i, obj, txt, st=None):
            k = (rule, f.dname, obj)
            if k not in seen:
                seen[k] = (rule, f.dname, obj, i.where(), txt, trail_text(st, 8) if st else "")
        return rep
    # roles
    R.savers, R.loaders = set(), set()
    for f in live:
        if any((i.callee_name or "").startswith("fopen") for i in f.calls()) and any(
                i.op == "load" and ir.apclass(ir.ap(f, i.ops[0])) == "%s.%s" % SL for i in f.insts()):
            (R.loaders if any(i.callee_name == "fread" for i in f.calls()) else R.savers).add(f.name)
    if len(R.savers) != 1 or len(R.loaders) != 1:
        raise RuntimeError("anchor: the functions saving and loading subscriptions were not found: %s %s" % (R.savers, R.loaders))
    R.mutators = GROW | WHOLE | {n for n in m.funcs if n.startswith("rtList_Remove")}
    R.freers = {f.dname for f in live if any(i.callee_name in ("free", "rt_free_at") and ir.ap(f, i.ops[0])[0] == "arg" for i in f.calls())
                and any(i.op == "load" and ir.apclass(ir.ap(f, i.ops[0])).startswith(S + ".") for i in f.insts())}
    R.alive = kills(w, live, min(R.loaders))
    # what whoever subscribes gives: fields stored from parameters where a subscription is made
    R.size = {x[0]: x[3] for x in m.structs[S]}
    R.recsize = max((x[2] + x[3] + 7) // 8 * 8 for x in m.structs[S])
    R.fields, R.fresh = {}, defaultdict(set)
    adders = []
    for f in live:
        got = {}
        al = [i for i in f.calls() if i.callee_name in ALLOC]
        for i in f.insts():
            if i.op != "store":
                continue
            p = ir.ap(f, i.ops[1])
            if p[0] == "fld" and p[2] == S:
                v = ir.ap(f, i.ops[0])
                if v[0] == "call" and f.defs[v[1]].callee_name in ("strdup", "__strdup"):
                    v = ir.ap(f, f.defs[v[1]].ops[0])
                got[p[3]] = v[1] if v[0] == "arg" else None
        if sum(x is not None for x in got.values()) >= 5:
            adders.append((f, got))
    if len(adders) != 1:
        raise RuntimeError("anchor: the function making subscriptions was not found: %s" % [f.name for f, g in adders])
    add, got = adders[0]
    R.given = {k: n for n, k in got.items() if k is not None and not add.dtypes[1 + k].startswith("elementNode")}
    R.fields = {n for n in R.given.values()} | {"subscriptionId"}
    R.saved = set(R.fields)
    R.savedcells = {S + "." + n for n in R.saved}
    R.tlv, R.reads = {}, {}
    kinds = {"INT32": "i32", "UINT32": "u32"}
    for f in m.defined():
        x = re.fullmatch(r"rbusBuffer_Write(\w+)TLV", f.dname)
        if x:
            for i in f.calls("rbusBuffer_WriteTypeLengthValue"):
                t = i.ops[1][1] if isinstance(i.ops[1], list) else None
                n = i.ops[2][1] if isinstance(i.ops[2], list) else None
                if x.group(1) == "String":
                    R.tlv[f.dname] = ("str", t)
                elif n is not None:
                    R.tlv[f.dname] = (("u" if x.group(1).startswith("U") else "i") + str(8 * n), t, n)
        x = re.fullmatch(r"rbusBuffer_Read(U?)Int(\d+)", f.dname)
        if x:
            R.reads[f.dname] = ("u" if x.group(1) else "i") + x.group(2)
    R.paths, R.written, R.loaded = defaultdict(set), {}, {}
    R.nsaved = R.nread = 0
    dirty(w, res, R, live)
    sv, ld = m.funcs[min(R.savers)], m.funcs[min(R.loaders)]
    for f, c in ((sv, Save), (ld, Load)):
        e = Engine(w, f, c(w, f, R, mk(f))).run()
        if e.over:
            raise RuntimeError("path budget exceeded in " + f.name)
    # both agree
    p, q = R.paths[sv.dname], R.paths[ld.dname]
    if p != q or len(p) != 1 or any("?" in x for x in p):
        res.add("C18.file", sv.dname, "path", "%s:%s" % (sv.file, sv.line0), "the file that is written is not the file that is read: %s, %s" % (sorted(p, key=repr), sorted(q, key=repr)), "")
    for (seq, nofilter), (i, trail) in sorted(R.written.items(), key=repr):
        want = [s for (s, nf) in R.loaded if nofilter is None or nf == nofilter]
        if not any(same(seq, s) for s in want):
            res.add("C18.layout", sv.dname, "record", i.where(), "%s writes %s for a subscription, which is not what %s reads: %s" % (sv.dname, show(seq), ld.dname, "; ".join(show(s) for s in want)), trail)
    for (seq, nofilter), (i, trail) in sorted(R.loaded.items(), key=repr):
        lost = R.fields - {n for k, n in seq} - ({"filter"} if nofilter else set())
        if lost:
            res.add("C18.layout", ld.dname, "lost", i.where(), "%s restores a subscription without its %s" % (ld.dname, ", ".join(sorted(lost))), trail)
        if not any(same(seq, s) for s, nf in R.written if nf is None or nf == nofilter):
            res.add("C18.layout", ld.dname, "record", i.where(), "%s reads %s for a subscription, which is never written" % (ld.dname, show(seq)), trail)
    for k in sorted(seen, key=repr):
        res.add(*seen[k])
    nf = filters(w, res, R, live)
    np = restored(w, res, R, live, add)
    res.count("records_written", len(R.written), 2)
    res.count("records_read", len(R.loaded), 2)
    res.count("reads_checked", R.nread, 20)
    res.count("filter_forms", nf, 2)
    res.count("arguments_restored", np, 14)
    res.rule("C18.saved: every function that adds a subscription to a registry's list, takes one off it or changes a field that is saved has the list saved before it returns to whoever is outside "
             "(path-sensitive, with summaries per returned value and per constant truth argument); "
             "C18.save/layout/file: the saving function writes every subscription whole, fields in the same order, type and width in which the loading function reads them, nothing is written after a failure, "
             "the file is truncated and closed, and both build the same path; "
             "C18.load: the loading function uses a value only after the read of it succeeded, checks lengths against what is left, discards the file on every failure, adds a subscription only when it was read whole and its owner runs, "
             "and releases what it does not add; "
             "C18.filter: for every kind of filter and operator, what the storing function writes is what the restoring one reads, each part into the field it came from, and no failure is reported as success; "
             "C18.restored: whoever gives the fields of a subscription on (adding, looking up, subscribing again) gives each as what it is, and a lookup compares every field it is given")
    res.assume("rtList_* change only the list they are given; rename and reordering of writes by the file system after a crash are not modelled")


def show(seq):
    return ", ".join("%s:%s" % (n, "/".join(str(x) for x in k)) for k, n in seq)


def same(a, b):
    return len(a) == len(b) and all(x == y for x, y in zip(a, b))


def kills(w, live, loader):
    """functions that tell whether the process behind a name is running"""
    out = set()
    for f in live:
        if any(f2.dname == f.dname and f.dtypes[0] in ("bool", "_Bool", "int") and any(t == "char*" for t in f.dtypes[1:]) for f2 in [f]) and f.dtypes:
            todo, seen = [f.name], set()
            while todo:
                n = todo.pop()
                if n in seen:
                    continue
                seen.add(n)
                g = w.m.funcs.get(n)
                if g is None or g.decl:
                    continue
                for i in g.calls():
                    if i.callee_name == "kill":
                        out.add(f.dname)
                    if i.callee_full:
                        todo.append(i.callee_full)
    return {n for n in out if w.m.fn(n) is not None and w.m.fn(n).file == w.m.funcs[loader].file and len(w.m.fn(n).argtypes) == 1}


# ---------------------------------------------------------------- filters

F, VAL = "_rbusFilter", {"rbusValue_Encode": "value", "rbusValue_Decode": "value"}
PARTS = (F, "_rbusFilter_RelationExpression", "_rbusFilter_LogicExpression")


def part(v):
    """field of a filter a value was read from"""
    return v[2:4] if v is not None and v[0] == "op" and v[1] == "part" else None


class FSave(Client):
    K = 40

    def __init__(self, w, f, R):
        self.w, self.f, self.R = w, f, R

    def init_ts(self, fn):
        return ()

    def ts_live(self, ts):
        return [("op", "part", ("s", ".".join(x)), ZERO) for x in self.R.switch + [self.R.right]]

    def on_load(self, eng, st, i, addr):
        b, f = base(addr)
        if f and f[0] in PARTS and root(b)[0] == "p":
            st.regs[i.id] = ("op", "part", ("s", ".".join(f)), ZERO)
            return [st]
        return None

    def on_call(self, eng, st, i, args):
        n = i.callee_name or ""
        t = self.R.tlv.get(n)
        if t is not None:
            d = name(args[1])
            has = st.isnull(("op", "part", ("s", ".".join(self.R.right)), ZERO))
            c = st.const(args[1])
            if d == "?" and has is not None and c == (0 if has else 1):
                d = "right?"
            st.ts = st.ts + ((t, d),)
            return [st]
        if n in VAL:
            st.ts = st.ts + (((VAL[n],), name(args[0])),)
            return [st]
        if n == self.f.dname:
            st.ts = st.ts + ((("filter",), name(args[0])),)
            return [st]
        return None

    def on_ret(self, eng, st, i, val):
        if st.isnull(("p", 0)) is True:
            return
        part = lambda x: ("op", "part", ("s", ".".join(x)), ZERO)
        self.R.fsaved.append((tuple(st.facts.get(part(x)) for x in self.R.switch) + (st.isnull(part(self.R.right)),), st.ts, i, trail_text(st, 8)))


def name(v):
    return v[2][1] if v[0] == "op" and v[1] == "part" else "?"


class FLoad(Client):
    """typestate: what was read, whether something could not be read, fields of filters made here, what was handed out"""
    K = 24

    def __init__(self, w, f, R, rep):
        self.w, self.f, self.R, self.rep = w, f, R, rep

    def init_ts(self, fn):
        return ((), False, (), None)

    def ts_live(self, ts):
        return [("op", "rd:" + k, ("c", n), ZERO) for n, k in enumerate(ts[0])] + [v for k, v in ts[2]] + ([ts[3]] if ts[3] else [])

    def on_call(self, eng, st, i, args):
        n = i.callee_name or ""
        reads, bad, made, out = st.ts
        k = self.R.reads.get(n) or VAL.get(n) or ("filter" if n == self.f.dname else None)
        if k:
            ok, no = st.copy(), st.copy()
            v = ("op", "rd:" + k, ("c", len(reads)), ZERO)
            eng.store(ok, args[1] if n in self.R.reads else args[0], v)
            if k in ("value", "filter"):
                ok.facts[v] = (-INF, INF, frozenset({0}))
            ok.regs[i.id], no.regs[i.id] = ZERO, ("c", -1)
            ok.ts, no.ts = (reads + (k,), bad, made, out), (reads, True, made, out)
            self.R.nread += 1
            return [ok, no]
        c = self.R.makers.get(n)
        if c:
            v = ("v", i.id, 0)
            eng.store(st, args[c[0]], v)
            d = dict(made)
            for f, x in c[1].items():
                d[(v, f)] = args[x[1]] if x[0] == "p" else x
            st.ts = (reads, bad, tuple(sorted(d.items(), key=repr)), out)
            return [st]
        return None

    def on_store(self, eng, st, i, addr, val):
        reads, bad, made, out = st.ts
        b, f = base(addr)
        if addr == ("p", 0):
            st.ts = (reads, bad, made, val)
        elif f and f[0] in PARTS:
            d = dict(made)
            d[(b, f)] = val
            st.ts = (reads, bad, tuple(sorted(d.items(), key=repr)), out)
        return None

    def on_ret(self, eng, st, i, val):
        reads, bad, made, out = st.ts
        c = st.const(val)
        if bad:
            if c == 0 or c is None:
                self.rep("C18.filter", i, "failed", "%s reports success although the filter could not be read" % self.f.dname, st)
            return
        if c != 0:
            return
        fields = {f: v for (o, f), v in made if o == out}
        if not fields:
            self.rep("C18.filter", i, "nothing", "%s reports success without a filter" % self.f.dname, st)
            return
        where = {}
        for f, v in fields.items():
            if v[0] == "op" and v[1].startswith("rd:"):
                where.setdefault(v[2][1], ".".join(f))
        facts = []
        for x in self.R.switch:
            v = fields.get(x)
            facts.append(None if v is None else (v[1], v[1], frozenset()) if v[0] == "c" else st.facts.get(v))
            # the discriminator is what was read and known to be that
            if v is not None and v[0] == "c":
                for k in range(len(reads)):
                    r = ("op", "rd:" + reads[k], ("c", k), ZERO)
                    if k not in where and reads[k] == "u32" and known(st, r) == v[1]:
                        where[k] = ".".join(x)
                        break
        right = fields.get(self.R.right)
        none = None if right is None else st.isnull(right) is True
        for k in range(len(reads)):
            if k not in where and reads[k] == "u32" and none is not None and st.isnull(("op", "rd:u32", ("c", k), ZERO)) is none:
                where[k] = "right?"
        facts.append(none)
        seq, k = [], 0
        while k < len(reads):
            if reads[k] in ("value", "filter"):
                seq.append(((reads[k],), where.get(k, "?")))
                k += 1
                continue
            if reads[k:k + 2] != ("u16", "u16") or k + 2 >= len(reads):
                seq.append((("?",) + reads[k:k + 3], "?"))
                break
            seq.append(((reads[k + 2], known(st, ("op", "rd:u16", ("c", k), ZERO)), known(st, ("op", "rd:u16", ("c", k + 1), ZERO))), where.get(k + 2, "?")))
            k += 3
        self.R.floaded.append((tuple(facts), tuple(seq), i, trail_text(st, 8)))


def admits(fact, c):
    return fact is None or (fact[0] <= c <= fact[1] and c not in fact[2])


def filters(w, res, R, live):
    """both directions agree for every kind of filter"""
    m = w.m
    enc, dec = m.fn("rbusFilter_Encode"), m.fn("rbusFilter_Decode")
    if enc is None or dec is None or enc.decl or dec.decl:
        raise RuntimeError("anchor: the functions storing filters were not found")
    R.switch = [(F, "type"), (PARTS[1], "op"), (PARTS[2], "op")]
    R.right = (PARTS[2], "right")
    R.fsaved, R.floaded, R.makers = [], [], {}
    for f in live:
        got, at = {}, None
        for i in f.insts():
            if i.op == "store":
                p = ir.ap(f, i.ops[1])
                if p[0] == "fld" and p[2] in PARTS:
                    o = p[1]
                    while o[0] == "fld":
                        o = o[1]
                    v = ir.ap(f, i.ops[0])
                    if o[0] == "ld" and o[1][0] == "arg":
                        c = i.ops[0]
                        got[(p[2], p[3])] = ("p", v[1]) if v[0] == "arg" else ("c", c[1]) if isinstance(c, list) and c and c[0] == "c" else ("?",)
                        at = o[1][1]
        if (F, "type") in got:
            R.makers[f.dname] = (at, {k: v for k, v in got.items() if v[0] != "?"})
    seen = {}

    def rep(rule, i, obj, txt, st=None):
        seen.setdefault((rule, i.fn.dname, obj), (i.where(), txt, trail_text(st, 8) if st else ""))
    for f, c in ((enc, FSave(w, enc, R)), (dec, FLoad(w, dec, R, rep))):
        if Engine(w, f, c).run().over:
            raise RuntimeError("path budget exceeded in " + f.name)
    for (rule, fn, obj), x in sorted(seen.items()):
        res.add(rule, fn, obj, *x)
    types = sorted((n[len("RBUS_FILTER_EXPRESSION_"):], v) for n, v in m.enumvals.items() if n.startswith("RBUS_FILTER_EXPRESSION_"))
    forms = 0
    for tn, t in types:
        rel = tn == "RELATION"
        pre = "RBUS_FILTER_OPERATOR_"
        logic = {"AND", "OR", "NOT"}
        opsn = sorted((n[len(pre):], v) for n, v in m.enumvals.items() if n.startswith(pre) and ((n[len(pre):] in logic) != rel))
        for on, o in opsn:
          for none in ((False, True) if on == "NOT" else (False,)):
            def pick(l):
                return [x for x in l if admits(x[0][0], t) and admits(x[0][1 if rel else 2], o) and (rel or x[0][3] in (none, None))]
            ss, ls = pick(R.fsaved), pick(R.floaded)
            a, b = {x[1] for x in ss}, {x[1] for x in ls}
            forms += bool(a and b)
            if a != b or len(a) != 1:
                i = ls[0][2] if ls else ss[0][2] if ss else next(iter(dec.insts()))
                res.add("C18.filter", dec.dname, "%s.%s" % (tn, on), i.where(), "a %s filter with operator %s%s is written as %s and read as %s" % (
                    tn.lower(), on, " and no right side" if none else "", " or ".join(sorted(map(show, a))) or "nothing", " or ".join(sorted(map(show, b))) or "nothing"), (ls or ss or [("", "", "", "")])[0][3])
    return forms


# ---------------------------------------------------------------- what a subscription's fields are given back as

def restored(w, res, R, live, add):
    """parameters that end up in, or are compared with, a field of a subscription mean that field; who passes a field passes it as what it means"""
    m = w.m
    means = defaultdict(lambda: defaultdict(dict))      # function -> parameter -> field -> where
    keys = R.fields

    def plain(f, v):
        """through a conversion to a truth value"""
        for _ in range(4):
            v = ir.strip(f, v)
            i = f.defs.get(v) if isinstance(v, int) else None
            if i is not None and i.op == "icmp" and i.pred == "ne" and isinstance(i.ops[1], list) and i.ops[1][:2] == ["c", 0]:
                v = i.ops[0]
            else:
                break
        return v

    def field(f, v):
        v = plain(f, v)
        p = ir.ap(f, v)
        if p[0] == "ld":
            p = p[1]
            if p[0] == "fld" and p[2] == S and p[3] in keys:
                return p[3], repr(p[1])
        return None

    def arg(f, v):
        p = ir.ap(f, plain(f, v))
        if p[0] == "ld" and p[1][0] == "arg":
            return p[1][1]
        return p[1] if p[0] == "arg" else None
    for f in live:
        for i in f.insts():
            if i.op == "store":
                p = ir.ap(f, i.ops[1])
                if p[0] == "fld" and p[2] == S and p[3] in keys:
                    v = ir.ap(f, i.ops[0])
                    if v[0] == "call" and (f.defs[v[1]].callee_name or "").endswith("strdup"):
                        k = arg(f, f.defs[v[1]].ops[0])
                    else:
                        k = arg(f, i.ops[0])
                        if k is None and f is add:
                            for x in sources(f, i.ops[0]):
                                k = arg(f, x) if arg(f, x) is not None else k
                    if k is not None:
                        means[f.name][k].setdefault(p[3], i.where())
            pair = None
            if i.op == "icmp" and len(i.ops) == 2:
                pair = i.ops
            elif i.op == "call" and i.callee_name in ("strcmp", "rbusFilter_Compare"):
                pair = i.ops[:2]
            if pair:
                for x, y in (pair, pair[::-1]):
                    fx, k = field(f, x), arg(f, y)
                    if fx and k is not None:
                        means[f.name][k].setdefault(fx[0], i.where())
    for fn in sorted(means):
        f = m.funcs[fn]
        if f is not add and len(means[fn]) >= 3:
            for k, t in enumerate(f.dtypes[1:]):
                if k not in means[fn] and k < len(f.argnames) and t in ("char*", "rbusFilter_t", "int32_t", "uint32_t", "int", "bool", "_Bool", "unsigned int"):
                    res.add("C18.restored", f.dname, f.argnames[k], "%s:%s" % (f.file, f.line0), "%s looks for a subscription without regard to %s" % (f.dname, f.argnames[k]), "")
    for rnd in range(6):
        ch = False
        for f in live:
            for i in f.calls():
                t = means.get(i.callee_full)
                if not t:
                    continue
                for j, fl in list(t.items()):
                    if j < len(i.ops):
                        k = arg(f, i.ops[j])
                        if k is not None:
                            for n in fl:
                                if n not in means[f.name][k]:
                                    means[f.name][k][n] = i.where()
                                    ch = True
        if not ch:
            break
    n = 0
    for fn in sorted(means):
        f = m.funcs[fn]
        for k in sorted(means[fn]):
            if len(means[fn][k]) > 1:
                (a, x), (b, y) = sorted(means[fn][k].items())[:2]
                res.add("C18.restored", f.dname, "%s.%s" % (a, b), y, "%s uses its parameter %s both as a subscription's %s and as its %s (%s)" % (
                    f.dname, f.argnames[k] if k < len(f.argnames) else k, a, b, x), "")
    for f in live:
        for i in f.calls():
            t = means.get(i.callee_full)
            if not t:
                continue
            of = {}
            for j in range(len(i.ops)):
                x = field(f, i.ops[j])
                if x is None:
                    p = ir.ap(f, i.ops[j])
                    x = (p[3], repr(p[1])) if p[0] == "fld" and p[2] == S and p[3] in keys else None
                of[j] = x
            if sum(x is not None for x in of.values()) < 3:
                continue
            who = {x[1] for x in of.values() if x}
            for j in sorted(t):
                want = sorted(t[j])[0]
                if j >= len(i.ops):
                    continue
                n += 1
                if of[j] is None and want == "subscriptionId":
                    g = m.funcs[i.callee_full]
                    zero = [ir.strip(f, i.ops[k]) for k in range(len(i.ops)) if k + 1 < len(g.dtypes) and g.dtypes[k + 1] in ("bool", "_Bool")]
                    if any(isinstance(z, list) and z[:2] == ["c", 0] for z in zero):
                        continue
                if of[j] is None or of[j][0] != want or len(who) > 1:
                    res.add("C18.restored", f.dname, want, i.where(), "%s passes %s as the %s of a subscription" % (f.dname, "something else" if of[j] is None else "its " + of[j][0], want), "")
    return n


def sources(f, v, d=0):
    v = ir.strip(f, v)
    out = [v]
    i = f.defs.get(v) if isinstance(v, int) else None
    if i is not None and d < 4:
        if i.op == "phi":
            for _, x in i.ops:
                out += sources(f, x, d + 1)
        elif i.op == "select":
            for x in i.ops[1:]:
                out += sources(f, x, d + 1)
    return out
