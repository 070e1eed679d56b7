"""What was received: nothing is used that was not there."""
from collections import defaultdict
import ir
from engine import *
from rules import c24, c14
from rules.c22 import base

# the reads of single fields: function -> the arguments it sets, only when it succeeds
PRIM = {"rbusMessage_GetString": (1,), "rbusMessage_GetBytes": (1, 2), "rbusMessage_GetInt32": (1,), "rbusMessage_GetUInt32": (1,), "rbusMessage_GetInt64": (1,),
        "rbusMessage_GetDouble": (1,), "rbusMessage_GetMessage": (1,),
        "rtMessage_GetString": (2,), "rtMessage_GetInt32": (2,), "rtMessage_GetDouble": (2,), "rtMessage_GetBool": (2,), "rtMessage_GetMessage": (2,), "rtMessage_GetBinaryData": (2, 3),
        "rtMessage_GetStringItem": (3,), "rtMessage_GetMessageItem": (3,)}
PRIM.update(("rbusBuffer_Read" + t, (1,)) for t in ("", "Boolean", "Char", "Byte", "Int8", "UInt8", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Single", "Double", "DateTime"))
POINTERS = {"rbusMessage_GetString": (1,), "rbusMessage_GetBytes": (1,), "rbusMessage_GetMessage": (1,), "rtMessage_GetString": (2,), "rtMessage_GetMessage": (2,), "rtMessage_GetBinaryData": (2,),
            "rtMessage_GetStringItem": (3,), "rtMessage_GetMessageItem": (3,)}
PRINTS = {"snprintf": 2, "sprintf": 1, "__snprintf_chk": 4}
NULLS = {"rtMessage_FromBytes": (0,)}          # set to null when it fails


def unset(v):
    return v[0] == "undef"


class Unset(c24.Bus):
    """typestate: the places a read that failed has left as they were, which is: never set; ("null", v) what a failed read has left null"""
    MAXSTEPS = 200000
    K = 4

    def __init__(self, w, f, R):
        c24.Bus.__init__(self, w, f, R)
        self.out = set()

    def init_ts(self, fn):
        return frozenset()

    def init_state(self, fn, st):
        for k, t in enumerate(fn.dtypes[1:] if not fn.inlinedAway else ()):
            if k < len(fn.args) and self.R.outparam(fn, k):
                st.dflt[("p", k)] = "undef"

    def ts_live(self, ts):
        return [a[1] if a[0] == "null" else a for a in ts]

    def null(self, st, v):
        return isinstance(v, tuple) and ("null", v) in st.ts and st.isnull(v) is True

    def leave(self, eng, st, i, addr, k):
        """the failed read leaves a null there"""
        v = eng.fresh(st, i, "n%d" % k)
        st.facts[v] = (0, 0, frozenset())
        st.mem[addr] = v
        st.ts = frozenset(x for x in st.ts if x != ("null", v)) | {("null", v)}

    def deref(self, eng, st, i, args):
        """a null handed on to code that follows it"""
        n = i.callee_full
        g = self.w.m.funcs.get(n) if n else None
        for k, a in enumerate(args):
            if not self.null(st, root(a)):
                continue
            if i.callee_name in PRINTS:
                hit = k >= PRINTS[i.callee_name]
            elif n and n.startswith("llvm.mem"):
                hit = st.const(args[2]) != 0
            elif g is None or g.decl:
                hit = k in c14.EXT.get(i.callee_name, ())
            else:
                hit = k < len(g.args) and g.argtypes[k] == "ptr" and k in self.R.N.summary(g, tuple(j for j, x in enumerate(args) if j < len(g.args) and g.argtypes[j] == "ptr" and st.isnull(x) is True))
            if hit:
                self.R.bad("C12.null", self.f, self.argname(i, k), i, "a null a failed read has left is followed by %s" % (i.callee_name), st)

    def argname(self, i, k):
        o = i.ops[k] if k < len(i.ops) else None
        d = self.f.defs.get(o) if not isinstance(o, list) else None
        while d is not None and d.op in ir.CASTS:
            d = self.f.defs.get(d.ops[0])
        if d is not None and d.op == "load":
            a = ir.ap(self.f, d.ops[0])
            d2 = self.f.defs.get(d.ops[0]) if not isinstance(d.ops[0], list) else None
            if d2 is not None and d2.name:
                return d2.name
        return "argument %d" % k

    def failed(self, st, addr):
        st.ts = st.ts | {addr}

    def place(self, st, v):
        """the failed read's place the unset value v comes from"""
        if v[0] != "undef" or not isinstance(v[1], tuple):
            return None
        key = v[1]
        if key and key[0] == "maybe":
            key = key[1:]
        if len(key) < 2:
            return None
        a = ("gep", key[0], key[1]) if key[1] else key[0]
        return a if a in st.ts else None

    def used(self, st, i, v, how):
        p = self.place(st, v) if isinstance(v, tuple) else None
        if p is not None:
            self.R.bad("C12.unset", self.f, self.name(p), i, "%s although the read that should have set it may have failed" % how, st)
            return True

    def name(self, a):
        r = root(a)
        lf = lastfield(a)
        if lf:
            return lf[1]
        if r[0] == "al":
            d = self.f.defs.get(r[1])
            return (d.name if d is not None and d.name else "local") if not isinstance(r[1], tuple) else "local"
        if r[0] == "p":
            return self.f.argnames[r[1]] if r[1] < len(self.f.argnames or []) else "argument"
        return "value"

    def on_use(self, eng, st, i, val, how):
        self.used(st, i, val, "decides")

    def on_load(self, eng, st, i, addr):
        self.used(st, i, root(addr), "is followed")
        if self.null(st, root(addr)):
            self.R.bad("C12.null", self.f, "null", i, "a null a failed read has left is followed", st)
            return []

    def on_store(self, eng, st, i, addr, val):
        self.used(st, i, root(addr), "is followed")
        if root(addr)[0] != "al":
            self.used(st, i, val, "is kept")
        if addr in st.ts and not unset(val):
            st.ts = st.ts - {addr}
        return None

    def on_call(self, eng, st, i, args):
        n = i.callee_name
        if n and n.startswith("llvm."):
            return None
        if n and (n.startswith("rtLog") or n in ("rbusLog", "rbuscoreLog")):
            return None
        for k, a in enumerate(args):
            self.used(st, i, a, "is passed on")
        self.deref(eng, st, i, args)
        if n in PRIM:
            self.R.count("reads", i)
            ok, no = st.copy(), st.copy()
            r = ("c", 0)
            for s, good in ((ok, True), (no, False)):
                if good:
                    for k in PRIM[n]:
                        eng.kill_obj(s, args[k]) if args[k][0] == "al" else None
                        s.ts = s.ts - {args[k]}
                        v = eng.fresh(s, i, "r%d" % k)
                        eng.store(s, args[k], v)
                    if i.id is not None and i.ty != "void":
                        s.regs[i.id] = ("c", 0)
                else:
                    for k in PRIM[n]:
                        old = eng.load(s, i, args[k])
                        if unset(old):
                            self.failed(s, args[k])
                        elif self.isread(old):       # what an earlier read has left there
                            s.mem[args[k]] = ("undef", (root(args[k]), args[k][2] if args[k][0] == "gep" else ()))
                            self.failed(s, args[k])
                        elif k in POINTERS.get(n, ()) and st.const(eng.load(s, i, args[k])) == 0:
                            self.leave(eng, s, i, args[k], k)
                    v = eng.fresh(s, i)
                    s.regs[i.id] = v
                    # the buffer's reads fail with -1
                    s.facts[v] = (-INF, -1, frozenset()) if n.startswith("rbusBuffer") else (-INF, INF, frozenset({0}))
            return [ok, no]
        if n in NULLS:
            self.R.count("reads", i)
            ok, no = st.copy(), st.copy()
            k = NULLS[n][0]
            v = eng.fresh(ok, i, "m")
            eng.store(ok, args[k], v)
            ok.facts[v] = (1, INF, frozenset())
            ok.regs[i.id] = ("c", 0)
            self.leave(eng, no, i, args[k], k)
            v = eng.fresh(no, i)
            no.regs[i.id] = v
            no.facts[v] = (-INF, INF, frozenset({0}))
            return [ok, no]
        g = n and (self.w.m.funcs.get(i.callee_full) or self.w.m.fn(n))
        if g and not g.decl and g.name != self.f.name and self.R.reads(g.name):
            ks = [k for k in range(min(len(args), len(g.args))) if self.R.outparam(g, k)]
            if not ks:
                return None
            before = {}
            for k in ks:
                for key in self.R.places(g.name, k):
                    a = self.rebase(args[k], key)
                    before[(k, key)] = (a, unset(eng.load(st, i, a)))
            outs = []
            for ret, missing in sorted(self.R.outcomes(g.name), key=repr):
                x = st.copy()
                r = eng.default_call(x, i, args)
                if r is None:
                    continue
                x = r[0]
                if i.ty and i.ty != "void":
                    if ret[0] == "c":
                        x.regs[i.id] = ret
                    else:
                        v = eng.fresh(x, i)
                        x.regs[i.id] = v
                        if ret[0] == "r":
                            x.facts[v] = ret[1]
                for k, key in before:
                    a, was = before[(k, key)]
                    if (k, key) in missing and was:
                        x.mem[a] = ("undef", (root(a), a[2] if a[0] == "gep" else ()))
                        self.failed(x, a)
                    elif a in x.ts:
                        x.ts = x.ts - {a}
                        if (k, key) not in missing and unset(eng.load(x, i, a)):
                            eng.store(x, a, eng.fresh(x, i, "o%d" % k))
                    elif unset(eng.load(x, i, a)):
                        eng.store(x, a, eng.fresh(x, i, "o%d" % k))
                outs.append(x)
            return outs
        return None

    def isread(self, v):
        return v[0] == "v" and isinstance(v[1], tuple) and len(v[1]) == 2 and isinstance(v[1][1], str) and v[1][1][:1] == "r"

    def rebase(self, a, key):
        return a if not key else mkgep(a, list(key))

    def after_call(self, eng, st, i, args):
        self.outs(eng, st, i, args)
        return None

    def on_ret(self, eng, st, i, val):
        if val is not None:
            self.used(st, i, val, "is returned")
        miss = set()
        for k in range(len(self.f.args)):
            if not self.R.outparam(self.f, k):
                continue
            if st.isnull(("p", k)) is True:
                continue
            for a in st.ts:
                if a[0] != "null" and root(a) == ("p", k) and unset(st.mem.get(a) or eng.load(st, i, a)):
                    miss.add((k, a[2] if a[0] == "gep" else ()))
        ret = ("any",)
        if val is not None:
            c = st.const(val)
            if c is not None:
                ret = ("c", c)
            elif val in st.facts:
                ret = ("r", st.facts[val])
        self.out.add((ret, frozenset(miss)))


DECODES = {"rbusMessage_GetString": ("STR",), "rbusMessage_GetBytes": ("BIN",), "rbusMessage_GetMessage": ("BIN",), "rbusMessage_GetInt32": ("POSITIVE_INTEGER", "NEGATIVE_INTEGER"),
           "rbusMessage_GetUInt32": ("POSITIVE_INTEGER", "NEGATIVE_INTEGER"), "rbusMessage_GetInt64": ("POSITIVE_INTEGER", "NEGATIVE_INTEGER"), "rbusMessage_GetDouble": ("FLOAT", "FLOAT32", "FLOAT64")}


JSON = ("rtMessage_GetString", "rtMessage_GetInt32", "rtMessage_GetDouble", "rtMessage_GetBool", "rtMessage_GetStringItem")


class Decode(Client):
    """the reads themselves: success means an item was unpacked, of the type read, and what the caller asked for was set"""
    K = 4

    def __init__(self, w, f, R, want):
        self.w, self.f, self.R, self.want = w, f, R, want
        self.ends = 0

    def init_ts(self, fn):
        return frozenset()

    def ts_live(self, ts):
        return [x[1] for x in ts if x[0] != "set"]

    def on_call(self, eng, st, i, args):
        if i.callee_name == "rtLogPrintf":
            return [st]
        return None

    def after_call(self, eng, st, i, args):
        if i.callee_name == "msgpack_unpack_next":
            st.ts = frozenset({("unpacked", st.regs[i.id])})

    def on_load(self, eng, st, i, addr):
        lf = lastfield(addr)
        v = ("v", i.id, 0)
        if lf and lf[1] == "type" and lf[0] == "msgpack_object":
            a = eng.load(st, i, addr)
            st.ts = frozenset(x for x in st.ts if x[0] != "type") | {("type", a)}
        elif i.ty == "i8" and any(x[0] == "unpacked" for x in st.ts):
            a = eng.load(st, i, addr)
            st.regs[i.id] = a
            st.ts = frozenset(x for x in st.ts if x[0] != "last") | {("last", a)}
            return [st]
        return None

    def on_store(self, eng, st, i, addr, val):
        if root(addr)[0] == "p" and root(addr)[1] > 0:
            st.ts = st.ts | {("set", root(addr)[1])}
            if self.want is None and root(addr)[1] in POINTERS.get(self.f.dname, ()):
                st.ts = frozenset(x for x in st.ts if x[0] != "text") | {("text", val)}
        return None

    def on_ret(self, eng, st, i, val):
        if val is None or st.const(val) not in (0, None):
            return
        self.ends += 1
        t = {x[0]: x[1] for x in st.ts if x[0] != "set"}
        got = {x[1] for x in st.ts if x[0] == "set"}
        if self.want is None:
            for k in PRIM[self.f.dname]:
                if k not in got:
                    self.R.bad("C12.read", self.f, "value", i, "success is reported though argument %d was not set" % k, st)
            if "String" in self.f.dname and "text" in t and st.isnull(t["text"]) is not False:
                self.R.bad("C12.read", self.f, "text", i, "success is reported though the text may be null", st)
            return
        ok = "unpacked" in t and st.const(t["unpacked"]) == self.R.unpacked
        if not ok:
            self.R.bad("C12.read", self.f, "item", i, "success is reported though no item was unpacked", st)
            return
        lo, hi = st.rng(t["type"]) if "type" in t else (-INF, INF)
        if not (min(self.want) <= lo and hi <= max(self.want)):
            self.R.bad("C12.read", self.f, "type", i, "success is reported though the item may be of another type", st)
        if "STR" in DECODES[self.f.dname] and not ("last" in t and st.const(t["last"]) == 0):
            self.R.bad("C12.read", self.f, "end", i, "a text is handed out that may not end within the message", st)
        if "GetMessage" not in self.f.dname:
            for k in PRIM[self.f.dname]:
                if k not in got:
                    self.R.bad("C12.read", self.f, "value", i, "success is reported though argument %d was not set" % k, st)


class Rules:
    unpacked = 2

    def __init__(self, w, res):
        self.w, self.res, self.m = w, res, w.m
        self.n_ = defaultdict(set)
        self.seen, self.memo, self.busy, self.rd = set(), {}, set(), {}
        self.N = c14.R(w)

    def count(self, k, i):
        self.n_[k].add(i.where())

    def bad(self, rule, f, obj, i, text, st):
        key = (rule, f.dname, obj)
        if key not in self.seen:
            self.seen.add(key)
            self.res.add(rule, f.dname, obj.replace(" ", "_"), i.where(), "%s: %s" % (obj, text), trail_text(st) if st is not None else "")

    def outparam(self, f, k):
        """f may set what its argument k points to, and does not ask for anything there"""
        t = f.dtypes[k + 1] if k + 1 < len(f.dtypes) else ""
        return t.endswith("*") and not t.startswith(("rbusMessage", "rtMessageHeader", "void", "FILE")) and k in self.w.writes_param(f.name) or t in ("rbusMessage*",) and k in self.w.writes_param(f.name)

    def reads(self, n, seen=()):
        if n in self.rd:
            return self.rd[n]
        f = self.m.funcs.get(n)
        if f is None or f.decl or n in seen:
            return False
        r = bool(list(f.calls(*PRIM)))
        if not r:
            r = any(self.reads(t, seen + (n,)) for i in f.insts() if i.op == "call" and i.callee_full for t in [i.callee_full])
        if not seen or r:
            self.rd[n] = r
        return r

    def outcomes(self, n):
        if n in self.memo:
            return self.memo[n]
        if n in self.busy:
            return {(("any",), frozenset())}
        self.busy.add(n)
        f = self.m.funcs[n]
        c = Unset(self.w, f, self)
        e = Engine(self.w, f, c)
        e.run()
        self.n_["functions"].add(n)
        if e.over:
            self.n_["over"].add(n)
        self.busy.discard(n)
        self.memo[n] = c.out or {(("any",), frozenset())}
        return self.memo[n]

    def places(self, n, k):
        return {p for ret, ms in self.outcomes(n) for kk, p in ms if kk == k}


def run(w, res):
    R = Rules(w, res)
    e = w.m.enumvals
    for n, ts in sorted(DECODES.items()) + [(n, None) for n in JSON]:
        f = w.m.fn(n)
        if f is None or f.decl:
            continue
        if ts is not None and not list(f.calls("msgpack_unpack_next")):
            continue               # the unpacking is elsewhere: nothing to decide here
        want = None if ts is None else [x for x in (e.get("MSGPACK_OBJECT_" + t) for t in ts) if x is not None]
        c = Decode(w, f, R, want)
        Engine(w, f, c).run()
        R.n_["decodes"].add(n)
    for f in w.m.defined(True):
        if R.reads(f.name) and f.dname not in PRIM and f.dname not in NULLS:
            R.outcomes(f.name)
    for k, floor in (("reads", 150), ("functions", 80), ("over", 0), ("decodes", 5)):
        res.count(k, len(R.n_[k]), floor)
    res.rule("C12.unset: a place a read may have left unset (no default before, no success known) is not decided on, followed, passed on, kept or returned")
    res.rule("C12.null: a null text or message a failed read may have left is not followed, neither here nor by the function it is handed to")
    res.rule("C12.read: a read reports success only if an item was unpacked, of the type read, and everything asked for was set; a text ends within the message")
    res.assume("a read sets its results exactly when it reports success (decided by C12.read for the reads themselves); a default given before a read is what the reader wants when the field is missing")
