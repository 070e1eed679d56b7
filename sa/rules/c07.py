"""Requests: who answers them, and how often."""
from collections import defaultdict
import ir
from engine import *
from rules import c24
from rules.c24 import F
from rules.c22 import strip0, base

HDR = "rtMessageHeader"
ROOTS = ("rtRouted_OnMessage", "_rtdirect_OnMessage", "onMessage")
PRIM = {"rtConnection_SendBinaryResponse": 1, "rtConnection_SendResponse": 1}
SENDS = ("sendmsg", "send", "sendto", "write", "writev")
NOTES = ("_RTROUTED.INBOX.HELLO", "_RTROUTED.INBOX.DIAG", "TransactionTime")       # announcements: nobody waits for an answer
NOTES_DIRECT = ("_RTROUTED.INBOX.SUBSCRIBE",)
COPY = ("memcpy", "memmove", "llvm.memcpy", "llvm.memmove")
REQUEST = ("c", 1)


def flagof(k):
    """the header whose request flag k is"""
    if k[0] == "op" and k[1] == "and" and REQUEST in k[2:]:
        x = k[2] if k[3] == REQUEST else k[3]
        if x[0] == "op" and x[1] == "fld:%s.flags" % HDR:
            return x[2]
    return None


class Ans(c24.Bus):
    """typestate: a set of
    ("n",h,k) header h answered k times   ("flag",h,b) its request flag   ("prep",x,h) x is the head of an answer to h
    ("copy",x,h) x holds a copy of h      ("later",h) put into a queue     ("note",) an announcement
    ("asked",h,r) handed to code that may answer later, which returned r   ("err",) already reported"""
    MAXSTEPS = 300000
    K = 6

    def __init__(self, w, f, R):
        c24.Bus.__init__(self, w, f, R)
        self.out = defaultdict(set)
        self.hdrs = R.hdrparams(f)

    def init_ts(self, fn):
        return frozenset()

    def ts_live(self, ts):
        return [x for t in ts for x in t[1:] if isinstance(x, tuple)]

    def h(self, v):
        return strip0(v)

    def ts_prune(self, st):
        new = set(st.ts)
        for k, v in st.facts.items():
            h = flagof(k)
            if h is not None:
                if v[0] > 0 or v[1] < 0 or (len(v) > 2 and v[2] and 0 in v[2]):
                    new.add(("flag", h, 1))
                elif v[0] == v[1] == 0:
                    new.add(("flag", h, 0))
            if k[0] == "op" and k[1] == "strcmp" and v[0] == v[1] == 0:
                for x in k[2:]:
                    if x[0] == "s" and x[1] in self.R.notes(self.f):
                        new.add(("note",))
        return frozenset(new)

    def flag(self, st, h):
        r = {x[2] for x in self.ts_prune(st) if x[0] == "flag" and x[1] == h}
        return r.pop() if len(r) == 1 else None

    def n(self, st, h):
        return max([x[2] for x in st.ts if x[0] == "n" and x[1] == h] or [0])

    def add(self, st, *t):
        st.ts = st.ts | frozenset(t)

    def answer(self, st, i, h):
        k = self.n(st, h)
        st.ts = frozenset(x for x in st.ts if x[:2] != ("n", h)) | {("n", h, min(2, k + 1))}
        for x in st.ts:
            if x[0] == "asked" and x[1] == h:
                lo, hi = st.rng(x[2])
                if self.R.asyncs(self.f, x[3]) and not (hi < self.R.ASYNC or lo > self.R.ASYNC or self.excluded(st, x[2])):
                    self.R.bad("C07.twice", self.f, "late answer", i, "the request is answered here although the code it was handed to may have announced its own answer", st)
        self.R.count("answers sent", i)

    def excluded(self, st, r):
        f = st.facts.get(r)
        return bool(f and len(f) > 2 and f[2] and self.R.ASYNC in f[2]) or st.const(r) not in (None, self.R.ASYNC)

    def on_call(self, eng, st, i, args):
        n = i.callee_name
        R = self.R
        if n == "rtMessageHeader_IsRequest":
            st.regs[i.id] = ("op", "and", F(HDR, "flags", self.h(args[0])), REQUEST)
            return [st]
        if n in COPY or n and n.startswith("llvm.memcpy"):
            s = root(args[1]) if args[1][0] == "gep" else args[1]
            for x in list(st.ts):
                if x[0] == "copy" and x[1] in (root(args[1]), self.h(args[1])):
                    self.add(st, ("copy", root(args[0]), x[2]))
            if self.h(args[1]) in self.hdrs.values():
                self.add(st, ("copy", root(args[0]), self.h(args[1])))
            return None
        if n == "_rbusMessage_SetMetaInfo" and args[1] == ("s", "METHOD_RESPONSE"):
            R.count("answers put together", i)
            if args[0][0] == "undef" or st.isnull(args[0]) is not False:
                R.bad("C07.answer", self.f, "response", i, "an answer is sent that the handler may not have made", st)
            return None
        if n == "rtVector_PushBack" and args[0][0] != "c":
            for x in list(st.ts):
                if x[0] == "copy" and x[1] == root(args[1]):
                    self.add(st, ("later", x[2]))
            return None
        if n == "rtVector_RemoveItem":
            for h in self.inside(args[1], i):
                self.finish(st, i, h, "a request taken from the queue")
            return None
        if n in PRIM:
            self.answer(st, i, self.h(args[PRIM[n]]))
            return None
        if n == "rtMessageHeader_Encode":
            for x in list(st.ts):
                if x[0] == "prep" and x[1] == self.h(args[0]):
                    self.add(st, ("enc", x[2]))
            return None
        if n in SENDS:
            for x in list(st.ts):
                if x[0] == "enc":
                    st.ts = st.ts - {x}
                    self.answer(st, i, x[1])
            return None
        if n is None:
            return None
        if n in c24.STR:
            return c24.Bus.on_call(self, eng, st, i, args)
        g = self.w.m.funcs.get(i.callee_full) or self.w.m.fn(n)
        if g is None or g.decl or g.name == self.f.name:
            return None
        ks = R.hdrparams(g)
        if not ks:
            return None
        for k in ks:
            h = [x[2] for x in st.ts if x[0] == "prep" and x[1] == self.h(args[k])]
            if h and R.sends(g.name):
                self.answer(st, i, h[0])
                return None
        if len(ks) > 1:
            wr = [k for k in ks if k in self.w.writes_param(g.name)]
            if wr and not R.sends(g.name):
                src = [k for k in ks if k not in wr]
                if src and R.saysresponse(g):
                    self.add(st, ("prep", self.h(args[wr[0]]), self.h(args[src[0]])))
                return None
        if not R.answers(g.name):
            return None
        r = eng.default_call(st, i, args)
        outs = []
        for s in ([st] if r is None else r):
            if i.ty and i.ty != "void" and i.id not in s.regs:
                s.regs[i.id] = eng.fresh(s, i)
            for k in ks:
                h = self.h(args[k])
                for o in sorted(R.outcomes(g.name)[k], key=repr):
                    x = s.copy()
                    fl = self.flag(x, h)
                    if o[0] is not None and fl is not None and o[0] != fl:
                        continue
                    if o[0] is not None:
                        self.add(x, ("flag", h, o[0]))
                    if R.status(o) and not R.passes(g):
                        self.add(x, ("err",))
                    elif "note" in o[2]:
                        self.add(x, ("note",))
                    elif "later" in o[2]:
                        self.add(x, ("later", h))
                    for _ in range(o[1]):
                        self.answer(x, i, h)
                    outs.append(x)
        return outs

    def inside(self, item, i):
        """the headers of the requests in item, a queue's entry"""
        for s, n in self.R.queued.items():
            if any(x.op == "getelementptr" and any(t[0] == "f" and t[1] == s for t in x.steps) for x in self.f.insts()):
                yield mkgep(item, [("f", s, n)])

    def after_call(self, eng, st, i, args):
        self.outs(eng, st, i, args)
        n = i.callee_name
        for x in list(st.ts):
            if x[0] == "copy" and n and any(root(a) == x[1] for a in args):
                for a in args:
                    if a[0] == "al":
                        self.add(st, ("copy", root(eng.load(st, i, a)), x[2]))
        if n == "rtMessage_Create":
            st.regs[i.id] = ZERO                 # memory does not run out
        if n == "rbusMessage_Init":
            v = eng.fresh(st, i)
            st.facts[v] = (1, INF, frozenset())
            eng.store(st, args[0], v)
        if n is None and i.id in st.regs:
            for a in args:
                a = self.h(a)
                if self.R.ishdr(self.f, a, self.hdrs):
                    self.add(st, ("asked", a, st.regs[i.id], i.id))
                    self.R.count("requests handed to handlers", i)
        return None

    def on_store(self, eng, st, i, addr, val):
        b, f = base(addr)
        if f == (HDR, "sequence_number") and val[0] == "op" and val[1] == "fld:%s.sequence_number" % HDR:
            self.add(st, ("seq", self.h(b), val[2]))
        if f == (HDR, "flags") and val[0] == "c" and val[1] & self.R.RESPONSE and not val[1] & 1:
            self.add(st, ("rsp", self.h(b)))
        for x in list(st.ts):
            if x[0] == "seq" and ("rsp", x[1]) in st.ts:
                self.add(st, ("prep", x[1], x[2]))
        return None

    def outcome(self, st, h):
        tags = set()
        for x in st.ts:
            if x[0] == "note":
                tags.add("note")
            if x[0] == "later" and x[1] == h:
                tags.add("later")
            if x[0] == "err":
                tags.add("err")
            if x[0] == "asked" and x[1] == h and st.const(x[2]) == self.R.ASYNC:
                tags.add("later")
        if any(t.endswith("*") and (st.const(("p", k)) == 0 or st.isnull(("p", k)) is True) for k, t in enumerate(self.f.dtypes[1:])):
            tags.add("err")                      # called without what it works on
        return (self.flag(st, h), self.n(st, h), frozenset(tags))

    def finish(self, st, i, h, what):
        o = self.outcome(st, h)
        s = self.R.status(o)
        if s:
            self.R.bad("C07." + s, self.f, "request", i, what + " " + TEXT[s], st)
        st.ts = frozenset(x for x in st.ts if not (x[0] in ("n", "flag", "asked", "later") and x[1] == h))
        st.facts = {k: v for k, v in st.facts.items() if flagof(k) != h}

    def on_ret(self, eng, st, i, val):
        for k, h in self.hdrs.items():
            self.out[k].add(self.outcome(st, h))
            self.R.ends.setdefault((self.f.name, k, self.outcome(st, h)), (i, st.copy()))
        for h in {x[1] for x in st.ts if x[0] == "n"}:
            if h in self.hdrs.values():
                continue
            if root(h)[0] == "v" or h[0] == "gep" and root(h)[0] == "p" and root(h) not in self.hdrs.values():
                o = self.outcome(st, h)
                if o[1] > 1:
                    self.R.bad("C07.twice", self.f, "request", i, "a request is answered twice", st)


TEXT = {"twice": "is answered twice", "missing": "ends without an answer although its sender may be waiting for one", "unasked": "is answered although it did not ask for an answer"}


class Late(c24.Bus):
    """typestate: the handle of the request to be answered was answered n times"""

    def __init__(self, w, f, R, k):
        c24.Bus.__init__(self, w, f, R)
        self.k = k

    def init_ts(self, fn):
        return 0

    def on_call(self, eng, st, i, args):
        g = i.callee_name
        if g in PRIM or g and self.R.answers(g):
            for a in args:
                if root(strip0(a)) == ("p", self.k):
                    st.ts = min(2, st.ts + 1)
        return None

    def on_ret(self, eng, st, i, val):
        if st.const(("p", self.k)) == 0 or st.isnull(("p", self.k)) is True:
            return
        if st.ts != 1:
            self.R.bad("C07.missing" if st.ts == 0 else "C07.twice", self.f, "late answer", i, "a request that is answered late gets %s" % ("no answer" if st.ts == 0 else "two answers"), st)


class Made(c24.Bus):
    """typestate: (how often the answer was made, what the application's handler returned, the method was recognised,
    messages made here and what they start with (0 nothing yet, 1 a status, 2 something else), which of them is the answer)"""
    MAXSTEPS = 300000
    K = 6

    def __init__(self, w, f, R, k):
        c24.Bus.__init__(self, w, f, R)
        self.k = k
        self.out = set()

    def init_ts(self, fn):
        return (0, None, False, frozenset(), None)

    def ts_live(self, ts):
        return ([ts[1]] if ts[1] else []) + [x for x, c in ts[3]] + ([ts[4]] if ts[4] else [])

    def ts_prune(self, st):
        for k, v in st.facts.items():
            if k[0] == "op" and k[1] == "strcmp" and v[0] == v[1] == 0 and any(x[0] == "s" for x in k[2:]) and any(x[0] == "p" for x in k[2:]):
                return st.ts[:2] + (True,) + st.ts[3:]
        return st.ts

    def made(self, st, i, v, n=1):
        st.ts = (min(2, st.ts[0] + n) if st.ts[0] != 9 else 9,) + st.ts[1:4] + (v,)

    def code(self, st, v):
        for x, c in st.ts[3]:
            if x == v:
                return c

    def setcode(self, st, v, c):
        st.ts = st.ts[:3] + (frozenset(x for x in st.ts[3] if x[0] != v) | {(v, c)},) + st.ts[4:]

    def put(self, st, v, status):
        if self.code(st, v) == 0:
            self.setcode(st, v, 1 if status else 2)

    def on_call(self, eng, st, i, args):
        n = i.callee_name
        if n in c24.STR:
            return c24.Bus.on_call(self, eng, st, i, args)
        if n and n.startswith("rbusMessage_Set"):
            self.put(st, args[0], n == "rbusMessage_SetInt32")
        g = n and (self.w.m.funcs.get(i.callee_full) or self.w.m.fn(n))
        if g and not g.decl and not n.startswith("rbusMessage_"):
            for k, a in enumerate(args):
                if self.code(st, a) == 0:
                    t = self.R.sets(g.name, k)
                    if t:
                        self.put(st, a, t == 1)
        if ("p", self.k) in args:
            if n == "rbusMessage_Init":
                return None
            if g and not g.decl and g.name != self.f.name:
                k = args.index(("p", self.k))
                res = self.R.makes(g.name, k)
                r = eng.default_call(st, i, args)
                outs = []
                for s in ([st] if r is None else r):
                    for cnt, ret, bad, coded in sorted(res, key=repr):
                        x = s.copy()
                        if i.ty and i.ty != "void":
                            x.regs[i.id] = ("c", ret) if ret is not None else eng.fresh(x, i)
                            if ret is None:
                                x.facts[x.regs[i.id]] = (-INF, INF, frozenset({self.R.ASYNC}))
                        if bad:
                            x.ts = (9,) + x.ts[1:]
                        elif cnt:
                            v = eng.fresh(x, i, "m")
                            eng.store(x, ("p", self.k), v)
                            x.facts[v] = (1, INF, frozenset())
                            self.made(x, i, v, cnt)
                            self.setcode(x, v, coded)
                        outs.append(x)
                return outs
        return None

    def after_call(self, eng, st, i, args):
        self.outs(eng, st, i, args)
        n = i.callee_name
        if n == "rbusMessage_Init":
            v = eng.fresh(st, i, "m")
            st.facts[v] = (1, INF, frozenset())
            eng.store(st, args[0], v)
            self.setcode(st, v, 0)
            if args[0] == ("p", self.k):
                self.made(st, i, v)
        if n is None and i.id in st.regs and self.R.late and any(t == self.R.latetype for t in (self.R.sigof(self.f, i) or ())):
            st.ts = (st.ts[0], st.regs[i.id]) + st.ts[2:]
        return None

    def on_store(self, eng, st, i, addr, val):
        if addr == ("p", self.k) and st.const(val) != 0:
            self.made(st, i, val)
        return None

    def on_load(self, eng, st, i, addr):
        if addr == ("p", self.k) and st.ts[4]:
            st.regs[i.id] = st.ts[4]
            return [st]

    def on_ret(self, eng, st, i, val):
        c = st.const(val) if val is not None else None
        st.ts = self.ts_prune(st)
        cnt, r, matched = st.ts[:3]
        coded = self.code(st, st.ts[4]) or 0
        bad = False
        if cnt == 9:
            bad = True
        else:
            A = self.R.ASYNCERR
            later = r is not None and st.const(r) == A
            notlater = r is None or st.const(r) not in (None, A) or bool(st.facts.get(r) and A in (st.facts[r][2] if len(st.facts[r]) > 2 and st.facts[r][2] else ())) or not (st.rng(r)[0] <= A <= st.rng(r)[1])
            if cnt > 1:
                bad = self.say("C07.twice", i, "two answers are made for one request", st)
            elif r is not None and not later and not notlater:
                bad = self.say("C07.later", i, "whether the application answers later is not looked at", st)
            elif later and (c != self.R.ASYNC or cnt):
                bad = self.say("C07.twice", i, "the application answers later, but an answer is given now", st)
            elif c == self.R.ASYNC and not later and r is not None:
                bad = self.say("C07.missing", i, "no answer is given, and none is to come", st)
        if cnt == 1 and coded != 1 and not bad and not (coded == 0 and self.R.helper(self.f)):
            bad = self.say("C07.status", i, "an answer has no status" if not coded else "an answer starts with something else than a status", st)
        if cnt == 0 and c != self.R.ASYNC and not bad and (matched or not self.R.dispatcher(self.f) and not self.R.helper(self.f)):
            bad = self.say("C07.missing", i, "a request that has a handler ends without that handler's answer", st)
        self.out.add((cnt if cnt != 9 else 1, c if c == self.R.ASYNC else None, bad, coded))

    def say(self, rule, i, text, st):
        self.R.bad(rule, self.f, "response", i, text, st)
        return True


class Route(c24.Bus):
    """typestate: (a handler was called, the message was turned round, the request flag)"""

    def init_ts(self, fn):
        return (0, 0, None)

    def ts_prune(self, st):
        fl = st.ts[2]
        if fl is None:
            for k, v in st.facts.items():
                if flagof(k) is not None:
                    if v[0] > 0 or v[1] < 0 or (len(v) > 2 and v[2] and 0 in v[2]):
                        fl = 1
                    elif v[0] == v[1] == 0:
                        fl = 0
        return (st.ts[0], st.ts[1], fl)

    def after_call(self, eng, st, i, args):
        self.outs(eng, st, i, args)
        if i.callee_name is None and any((lastfield(a) or ("", ""))[1] == "header" for a in args):
            st.ts = (1, st.ts[1], st.ts[2])
        if i.callee_name == "rtRoutingTree_GetTopicRoutes":
            st.ts = (0 if not st.ts[1] else st.ts[0], 2 if st.ts[1] else 0, st.ts[2])
        return None

    def on_store(self, eng, st, i, addr, val):
        b, f = base(addr)
        if f == (HDR, "flags"):
            fl = self.ts_prune(st)[2]
            if st.ts[0]:
                self.R.bad("C07.twice", self.f, "undeliverable", i, "a message that was handed on is also sent back", st)
            if fl != 1:
                self.R.bad("C07.unasked", self.f, "undeliverable", i, "a message that may not be a request is sent back", st)
            st.ts = (st.ts[0], 1, fl)
        return None

    def on_ret(self, eng, st, i, val):
        h, t, fl = self.ts_prune(st)
        if not h and t != 2 and fl != 0:
            self.R.bad("C07.missing", self.f, "undeliverable", i, "a request nobody is there for ends without an answer", st)


class Rules:
    def __init__(self, w, res):
        self.w, self.res, self.m = w, res, w.m
        self.ASYNC = w.m.enumvals.get("RBUSCORE_SUCCESS_ASYNC", 13)
        self.RESPONSE = w.m.enumvals.get("rtMessageFlags_Response", 2)
        self.ASYNCERR = w.m.enumvals.get("RBUS_ERROR_ASYNC_RESPONSE")
        self.n_ = defaultdict(set)
        self.seen = set()
        self.memo, self.mk, self.sd, self.busy = {}, {}, {}, set()
        self.taken = None
        self.ends = {}
        self.latetype = "rbusMethodAsyncHandle_t"
        self.late = True
        self.queued = {}
        for s, fs in w.m.structs.items():
            names = [x[0] for x in fs]
            if "hdr" in names and "msg" in names:
                self.queued[s] = "hdr"
        self.notesof = {}

    def notes(self, f):
        return NOTES + NOTES_DIRECT if "rtrouteBase" in f.file else NOTES

    def count(self, k, i):
        self.n_[k].add(i.where())

    def bad(self, rule, f, obj, i, text, st):
        key = (rule, f.dname, obj, text)
        if key not in self.seen:
            self.seen.add(key)
            self.res.add(rule, f.dname, obj.replace(" ", "_"), i.where(), text, trail_text(st) if st is not None else "")

    def hdrparams(self, f):
        return {k: ("p", k) for k, t in enumerate(f.dtypes[1:]) if t == HDR + "*" and k < len(f.args)}

    def ishdr(self, f, v, hdrs):
        return v in hdrs.values() or (lastfield(v) or ("", ""))[1] in ("hdr", "header") and v[0] == "gep"

    def sends(self, n, seen=()):
        if n in self.sd:
            return self.sd[n]
        f = self.m.funcs.get(n)
        r = n in SENDS
        if f is not None and not f.decl and n not in seen:
            r = any(i.callee_name in SENDS or i.callee_full and self.sends(i.callee_full, seen + (n,)) for i in f.insts() if i.op == "call")
        if not seen:
            self.sd[n] = r
        return r

    def asyncs(self, f, iid):
        """what is called there may announce a late answer"""
        i = f.defs.get(iid)
        return any(self.retsasync(t) for t in self.w.targets_known(f, i))

    def saysresponse(self, g):
        """g marks a header as a response's"""
        return any(i.op == "store" and isinstance(i.ops[0], list) and i.ops[0][0] == "c" and i.ops[0][1] & self.RESPONSE and not i.ops[0][1] & 1
                   and self.isflags(g, i.ops[1]) for i in g.insts())

    def isflags(self, g, o):
        d = g.defs.get(o) if not isinstance(o, list) else None
        return d is not None and d.op == "getelementptr" and bool(d.steps) and d.steps[-1][0] == "f" and d.steps[-1][1:3] == [HDR, "flags"]

    def retsasync(self, n, seen=()):
        f = self.m.funcs.get(n)
        if f is None or f.decl or n in seen:
            return False
        def walk(o, d=0):
            if isinstance(o, list):
                return o[0] == "c" and o[1] == self.ASYNC
            x = f.defs.get(o)
            if x is None or d > 8:
                return False
            if x.op == "phi":
                return any(walk(v, d + 1) for b, v in x.ops) if x.ops and isinstance(x.ops[0], list) else any(walk(v, d + 1) for v, b in x.ops)
            if x.op == "select":
                return walk(x.ops[1], d + 1) or walk(x.ops[2], d + 1)
            if x.op in ir.CASTS:
                return walk(x.ops[0], d + 1)
            if x.op == "call" and x.callee_full:
                return self.retsasync(x.callee_full, seen + (n,))
            if x.op == "load":
                return any(walk(s.ops[0], d + 1) for s in f.insts() if s.op == "store" and s.ops[1] == x.ops[0])
            return False
        return any(walk(i.ops[0]) for i in f.insts() if i.op == "ret" and i.ops)

    def sigof(self, f, i):
        """the types of the arguments, as far as the operands tell"""
        out = []
        for o in i.ops:
            out.append(None)
            d = f.defs.get(o) if not isinstance(o, list) else None
            if d is not None and d.op == "call" and d.callee_name in ("malloc", "rt_malloc", "rt_malloc_at", "calloc", "rt_calloc", "rt_try_malloc", "rt_calloc_at", "rt_try_malloc_at"):
                out[-1] = self.latetype
        return out

    def answers(self, n):
        if n in PRIM:
            return True
        f = self.m.funcs.get(n) or self.m.fn(n)
        return f is not None and not f.decl and bool(self.hdrparams(f)) and any(o[1] or o[2] for s in self.outcomes(f.name).values() for o in s)

    def outcomes(self, n):
        if n in self.memo:
            return self.memo[n]
        f = self.m.funcs[n]
        if n in self.busy or not self.canreach(n):
            return {k: {(None, 0, frozenset())} for k in self.hdrparams(f)}
        self.busy.add(n)
        c = Ans(self.w, f, self)
        Engine(self.w, f, c).run()
        self.busy.discard(n)
        self.memo[n] = {k: c.out.get(k) or {(None, 0, frozenset({"err"}))} for k in self.hdrparams(f)}
        return self.memo[n]

    def passes(self, f):
        """f is only called where the request it is given is looked after by the caller"""
        if f.name in ROOTS or f.dname in ROOTS:
            return False
        if f.inlinedAway:
            return True
        if self.taken is None:
            self.taken, self.called = set(), set()
            for g in self.m.defined(True):
                for i in g.insts():
                    for o in (i.ops or ()):
                        for x in (o if isinstance(o, list) and o and isinstance(o[0], list) else [o]):
                            if isinstance(x, list) and x and x[0] == "f":
                                self.taken.add(x[1])
                    if i.op == "call" and i.callee_full and self.hdrparams(g) and g.name != i.callee_full:
                        self.called.add(i.callee_full)
        return f.name in self.called and f.name not in self.taken

    def canreach(self, n, seen=()):
        """n may answer something"""
        f = self.m.funcs.get(n)
        return n in ROOTS or n in PRIM or self.sends(n) or f is not None and any("METHOD_RESPONSE" in (o[1] for o in i.ops if isinstance(o, list) and o[0] == "s") for i in f.calls("_rbusMessage_SetMetaInfo"))

    def dispatcher(self, f):
        """f hands the request on by its method's name"""
        return "rbusMessage*" in f.dtypes[1:] and HDR + "*" in f.dtypes[1:] and any(True for i in f.insts() if i.op == "call" and i.callee_name in c24.STR and any(isinstance(o, list) and o[0] == "s" for o in i.ops))

    @staticmethod
    def status(o):
        fl, n, tags = o
        if "err" in tags:
            return None
        if n > 1:
            return "twice"
        if n == 1:
            return None if fl == 1 and "later" not in tags else "twice" if "later" in tags else "unasked"
        return None if fl == 0 or tags & {"later", "note"} else "missing"

    def sets(self, n, k, seen=()):
        """what a function's first entry in the message it is given is: 1 a status, 2 something else, None nothing"""
        f = self.m.funcs.get(n)
        if f is None or f.decl or k >= len(f.args) or n in seen:
            return None
        out = set()
        for i in f.insts():
            if i.op != "call" or not i.callee_full:
                continue
            for j, o in enumerate(i.ops):
                if o == k and not isinstance(o, list):
                    if i.callee_name.startswith("rbusMessage_Set"):
                        out.add((i, 1 if i.callee_name == "rbusMessage_SetInt32" else 2))
                    else:
                        t = self.sets(i.callee_full, j, seen + (n,))
                        if t:
                            out.add((i, t))
        if not out:
            return None
        one = [i for i, t in out if t == 1]
        return 1 if any(all(i is x or f.dominates(i, x) for x, t in out) for i in one) else 2

    def helper(self, f):
        """f only helps to make an answer: it is never registered, and does not see the request"""
        return "rbusMessage" not in f.dtypes[1:]

    def makes(self, n, k):
        if (n, k) in self.mk:
            return self.mk[(n, k)]
        if ("mk", n) in self.busy:
            return {(0, None, False)}
        f = self.m.funcs[n]
        self.busy.add(("mk", n))
        c = Made(self.w, f, self, k)
        Engine(self.w, f, c).run()
        self.busy.discard(("mk", n))
        self.mk[(n, k)] = c.out
        return c.out


def run(w, res):
    R = Rules(w, res)
    # the roots, and whatever else answers
    for f in w.m.defined(True):
        if f.inlinedAway or not R.hdrparams(f) or f.name in PRIM:
            continue
        o = R.outcomes(f.name)
        if f.dname not in ROOTS and not any(x[1] for s in o.values() for x in s):
            continue
        if f.dname == "rtConnection_SendResponse":
            continue
        for k, s in o.items():
            for x in sorted(s, key=repr):
                t = R.status(x) if not R.passes(f) else None
                R.n_["ways through a request"].add((f.name, x))
                if t:
                    i, st = R.ends[(f.name, k, x)]
                    R.bad("C07." + t, f, "request", i, "a request " + TEXT[t], st)
        R.n_["functions that answer requests"].add(f.name)
    # late answers
    for f in w.m.defined(True):
        if f.inlinedAway:
            continue
        for k, t in enumerate(f.dtypes[1:]):
            if t == R.latetype and any(R.answers(i.callee_name) for i in f.insts() if i.op == "call" and i.callee_name):
                Engine(w, f, Late(w, f, R, k)).run()
                R.n_["late answers"].add(f.name)
    # handlers: those registered, and what they call with the answer
    cbs = [f for f in w.m.defined(True) if not f.inlinedAway and "rbusMessage*" in f.dtypes[1:] and HDR + "*" in f.dtypes[1:] and "rbusMessage" in f.dtypes[1:]]
    for f in cbs:
        k = f.dtypes[1:].index("rbusMessage*")
        R.makes(f.name, k)
    for (n, k), out in sorted(R.mk.items()):
        R.n_["handlers that make answers"].add(n)
        for i in w.m.funcs[n].insts():
            if i.op == "call" and i.callee_name == "rbusMessage_Init" and i.ops[0] == k:
                R.n_["answers made"].add(i.where())
    # messages nobody is there for
    for f in w.m.defined(True):
        if not f.inlinedAway and list(f.calls("rtRoutingTree_GetTopicRoutes")) and any(i.op == "call" and i.callee_name is None for i in f.insts()):
            Engine(w, f, Route(w, f, R)).run()
            R.n_["routing functions"].add(f.name)
    floors = {"functions that answer requests": 6, "answers sent": 6, "requests handed to handlers": 1, "ways through a request": 12, "late answers": 1, "answers made": 8, "routing functions": 1,
              "answers put together": 2}
    for k, n in floors.items():
        res.count(k, len(R.n_[k]), n)
    res.rule("C07.missing: no way through a function that answers requests ends without an answer, unless the request flag is known to be off, the request was queued or will be answered later, or the message is an announcement")
    res.rule("C07.twice: no request is answered twice, nor once now and once by the application later, nor both handed on and sent back")
    res.rule("C07.unasked: an answer is sent only where the request flag is known to be on")
    res.rule("C07.status: an answer starts with a status")
    res.rule("C07.answer: what is sent as an answer is a message that was made")
    res.assume("memory for an answer can be had; which topics are announcements is a frozen table; a forwarded request is answered by the client it went to")
