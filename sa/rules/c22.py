"""A reply is matched to the one pending request with its number, and reply headers are made from the request's."""
from collections import defaultdict
import ir
from engine import *
from locks import Locks, contexts, cls

H, P, C = "rtMessageHeader", "pending_request", "_rtConnection"
ENC, INIT = "rtMessageHeader_Encode", "rtMessageHeader_Init"
REQ, RESP = 1, 2
COPY = {"strncpy": (0, 1), "strcpy": (0, 1), "rtString_Copy": (0, 1), "memcpy": (0, 1), "memmove": (0, 1), "snprintf": (0, 3), "__strncpy_chk": (0, 1), "__snprintf_chk": (0, 5), "stpncpy": (0, 1), "stpcpy": (0, 1), "strlcpy": (0, 1)}
PUSH = {"rtList_PushFront", "rtList_PushBack", "rtList_InsertBefore", "rtList_InsertAfter"}
REMOVE = {"rtList_RemoveItem", "rtList_RemoveFront", "rtList_RemoveBack", "rtList_RemoveItemByCompare"}
MUTEX = C + ".mutex"
FLD = {(H, "flags"), (H, "sequence_number"), (P, "sequence_number"), (P, "sem"), (P, "response"), (C, "pending_requests_list"), (C, "inbox_name"), (C, "sequence_number")}


def strip0(a):
    if a[0] == "gep":
        s = list(a[2])
        while s and s[-1][0] == "i" and s[-1][1] == ZERO:
            s.pop()
        return mkgep(a[1], s)
    return a


def base(a):
    """the object a field address lies in, and the field"""
    a = strip0(a)
    if a[0] == "gep" and a[2] and a[2][-1][0] == "f":
        return strip0(mkgep(a[1], a[2][:-1])), a[2][-1][1:3]
    return a, None


def flip(v):
    """constants of a mask come second"""
    if v is not None and v[0] == "op" and v[1] in ("and", "or") and v[2][0] == "c":
        return v[:2] + (v[3], v[2])
    return v


def src(v):
    """(object, (struct, field)) a value was read from"""
    v = flip(v)
    while v is not None and v[0] == "op" and v[1] in ("and", "or") and v[3][0] == "c":
        v = flip(v[2])
    if v is not None and v[0] == "op" and v[1].startswith("fld:"):
        return v[2], tuple(v[1][4:].split("."))
    return None


def bits(v):
    """flag bits known to be set / cleared, and where the rest comes from"""
    s = c = 0
    v = flip(v)
    while v[0] == "op" and v[1] in ("and", "or") and v[3][0] == "c":
        k = v[3][1] & 0xffffffff
        if v[1] == "or":
            s |= k & ~c
        else:
            c |= ~k & 0xffffffff & ~s
        v = flip(v[2])
    if v[0] == "c":
        return (s | v[1] & ~c) & 0xffffffff, c | ~v[1] & 0xffffffff & ~s, None
    return s, c, src(v)


class Fields(Client):
    """loads of the fields this is about carry their origin; the connection's mutex is tracked (last element of the typestate)"""
    K = 4
    KHEAD = 3
    MAXSTEPS = 200000

    def entry(self, fn):
        return (MUTEX in self.R.ctx.get(fn.name, ()),)

    def mutex(self, st, i, args):
        if args and cls(args[0]) == MUTEX:
            if i.callee_name == "pthread_mutex_lock":
                st.ts = st.ts[:-1] + (True,)
            elif i.callee_name == "pthread_mutex_unlock":
                st.ts = st.ts[:-1] + (False,)
                return True
        return False

    def origin(self, st, i, addr):
        b, f = base(addr)
        if f in FLD:
            eng = self.eng
            v = eng.load(st, i, addr)
            if v[0] in ("v", "undef", "j"):
                v = ("op", "fld:%s.%s" % f, b, ("c", i.id if f[1] in ("flags", "response") else 0))
                if eng.trackable(addr):
                    eng.store(st, addr, v)
            st.regs[i.id] = v
            return [st]
        return None

    def on_load(self, eng, st, i, addr):
        self.eng = eng
        return self.origin(st, i, addr)


class Deliver(Fields):
    """a response is stored in a pending request"""
    def __init__(self, w, L, f, rep, R):
        self.w, self.L, self.f, self.rep, self.R = w, L, f, rep, R

    def init_ts(self, fn):
        return ((), frozenset()) + self.entry(fn)         # conditions passed, entries given a response (not yet posted)

    def ts_live(self, ts):
        return list(ts[0]) + list(ts[1])

    def on_branch(self, eng, st, i, cond):
        if mentions(cond) and cond not in st.ts[0]:
            # of the comparisons with a list entry the last one counts
            st.ts = (tuple(c for c in st.ts[0] if P not in repr(c) or P not in repr(cond) or shape(c) != shape(cond))[-12:] + (cond,),) + st.ts[1:]

    def known(self, st, a, b):
        for c in st.ts[0]:
            while c[0] == "op" and c[1] == "not":
                c = c[2]
            if c[0] == "op" and c[1] in ("icmp eq", "icmp ne") and {c[2], c[3]} == {a, b} and st.cond(("op", "icmp eq", c[2], c[3])) is True:
                return True
        return False

    def on_store(self, eng, st, i, addr, val):
        self.eng = eng
        b, f = base(addr)
        if f != (P, "response") or st.isnull(val) is True:
            return None
        self.R.nstore += 1
        h = strip0(mkgep(val, [("f", "rtMessageInfo", "header")]))
        hb = [self.hdr(c, val) for c in st.ts[0]]
        hb = [x for x in hb if x]
        h = hb[0] if hb else None
        num = [c for c in st.ts[0] for x in [uncond(c)] if x and {s[1] for s in x if s} == {(P, "sequence_number"), (H, "sequence_number")}]
        ok = False
        for c in num:
            x = uncond(c)
            e = [s for s in x if s[1][0] == P][0]
            m = [s for s in x if s[1][0] == H][0]
            if e[0] == b and inside(m[0], val) and st.cond(("op", "icmp eq") + tuple(rawcond(c)[2:4])) is True:
                ok = True
        if not ok:
            self.rep("C22.match", i, "sequence_number", "%s hands a response to a pending request on a path that has not found their sequence numbers equal" % self.f.dname, st)
        fl = [v for c in st.ts[0] for v in ands(c) if src(v) and src(v)[1] == (H, "flags") and inside(src(v)[0], val) and v[3][1] & 0xffffffff == RESP]
        if not any(st.isnull(v) is False or st.isnull(v[:2] + (v[3], v[2])) is False for v in fl):
            self.rep("C22.match", i, "flags", "%s hands a message to a pending request without having found that it is a response" % self.f.dname, st)
        m = st.mem.get(addr)
        if not (m is not None and st.isnull(m) is True):
            self.rep("C22.twice", i, "response", "%s hands a response to a pending request without having found that it has none yet: a duplicate replaces the response" % self.f.dname, st)
        if not st.ts[-1]:
            self.rep("C22.locked", i, "response", "%s hands a response to a pending request without the connection's mutex: the request may be given up meanwhile" % self.f.dname, st)
        st.ts = (st.ts[0], st.ts[1] | {b}) + st.ts[2:]
        return None

    def hdr(self, c, val):
        return None

    def on_call(self, eng, st, i, args):
        self.eng = eng
        if i.callee_name == "rtSemaphore_Post" and args:
            s = src(args[0])
            if s and s[1] == (P, "sem"):
                self.R.npost += 1
                if s[0] not in st.ts[1] and self.stores:
                    self.rep("C22.wake", i, "sem", "%s wakes a waiting caller without having given it a response" % self.f.dname, st)
                st.ts = (st.ts[0], st.ts[1] - {s[0]}) + st.ts[2:]
        elif self.mutex(st, i, args) and st.ts[1]:
            self.rep("C22.wake", i, "response", "%s gives a pending request its response without waking the caller" % self.f.dname, st)
        return None


def rawcond(c):
    while c[0] == "op" and c[1] == "not":
        c = c[2]
    return c


def uncond(c):
    c = rawcond(c)
    if c[0] == "op" and c[1] in ("icmp eq", "icmp ne"):
        x = tuple(src(v) if v[1][:4] == "fld:" else None for v in c[2:4] if v[0] == "op")
        return x if len(x) == 2 and all(x) else None
    return None


def ands(c):
    c = rawcond(c)
    out = []
    for v in (c[2:4] if c[0] == "op" and c[1].startswith("icmp") else (c,)):
        if v[0] == "op" and v[1] == "and" and flip(v)[3][0] == "c":
            out.append(flip(v))
    return out


def shape(v):
    """the fields a condition is about"""
    if not isinstance(v, tuple) or not v:
        return frozenset()
    if v[0] == "op" and v[1].startswith("fld:"):
        return frozenset([v[1]])
    return frozenset(y for x in v if isinstance(x, tuple) for y in shape(x))


def mentions(v):
    if not isinstance(v, tuple):
        return False
    if v and v[0] == "op" and v[1].startswith("fld:"):
        return True
    return any(mentions(x) for x in v if isinstance(x, tuple))


def inside(h, m):
    """h is m, or a part of what m points to"""
    return h == m or h[0] == "gep" and h[1] == m


class Request(Fields):
    """a caller queues its request, sends it under its number, waits and takes it off the list again"""
    def __init__(self, w, L, f, rep, R):
        self.w, self.L, self.f, self.rep, self.R = w, L, f, rep, R

    def init_ts(self, fn):
        # numbers drawn, numbers used by a request, (entry, item cell) on the list
        return (frozenset(), frozenset(), frozenset()) + self.entry(fn)

    def ts_live(self, ts):
        return list(ts[0]) + list(ts[1]) + [x for p in ts[2] for x in p if x]

    def on_rmw(self, eng, st, i, addr, sym):
        if base(addr)[1] == (C, "sequence_number"):
            st.ts = (st.ts[0] | {st.regs[i.id]},) + st.ts[1:]

    def on_load(self, eng, st, i, addr):
        self.eng = eng
        b, f = base(addr)
        if f == (P, "response") and any(e == b for e, _ in st.ts[2]):
            if not st.ts[-1]:
                self.rep("C22.locked", i, "response", "%s looks at the response of its pending request without the connection's mutex" % self.f.dname, st)
        return self.origin(st, i, addr)

    def on_call(self, eng, st, i, args):
        self.eng = eng
        n = i.callee_name
        drawn, used, pend, held = st.ts
        self.mutex(st, i, args)
        if n in PUSH and src(args[0]) and src(args[0])[1] == (C, "pending_requests_list"):
            self.R.npush += 1
            e = strip0(args[1])
            seq = st.mem.get(mkgep(e, [("f", P, "sequence_number")]))
            if pend:
                self.rep("C22.given-up", i, "pending", "%s queues another request while the one before is still on the list" % self.f.dname, st)
            if seq is None or seq not in drawn:
                self.rep("C22.number", i, "sequence_number", "%s queues a request whose number was not drawn from the connection's counter" % self.f.dname, st)
            elif seq in used:
                self.rep("C22.number", i, "sequence_number", "%s queues a second request under the same number" % self.f.dname, st)
            r = st.mem.get(mkgep(e, [("f", P, "response")]))
            if r is None or st.isnull(r) is not True:
                self.rep("C22.number", i, "response", "%s queues a request that is not known to have no response yet" % self.f.dname, st)
            if not st.ts[-1]:
                self.rep("C22.locked", i, "push", "%s queues a request without the connection's mutex" % self.f.dname, st)
            cell = strip0(args[2]) if len(args) > 2 else None
            st.ts = (drawn, used | ({seq} if seq else set()), frozenset([(e, cell)]), held)
        elif n in REMOVE and src(args[0]) and src(args[0])[1] == (C, "pending_requests_list"):
            self.R.nremove += 1
            if not st.ts[-1]:
                self.rep("C22.locked", i, "remove", "%s takes a request off the list without the connection's mutex" % self.f.dname, st)
            keep = frozenset((e, c) for e, c in pend if not (n == "rtList_RemoveItem" and c is not None and (st.mem.get(c) == args[1] or cellof(self.f, i.ops[1]) == c)))
            st.ts = (drawn, used, keep, held)
        elif n == "rtSemaphore_Destroy" and args:
            s = src(args[0])
            b = s[0] if s and s[1] == (P, "sem") else None
            if b is None:
                b = [base(k)[0] for k, v in st.mem.items() if v == args[0] and base(k)[1] == (P, "sem")]
                b = b[0] if b else None
            if any(e == b for e, _ in pend):
                self.rep("C22.given-up", i, "sem", "%s destroys the semaphore of a request that is still on the list" % self.f.dname, st)
        elif n in self.R.roles:
            ro = self.R.roles[n]
            fl = bits(args[ro["flags"]])
            if fl[0] & REQ and pend:
                e = next(iter(pend))[0]
                self.R.nsend += 1
                seq = st.mem.get(mkgep(e, [("f", P, "sequence_number")]))
                if seq is None or args[ro["sequence_number"]] != seq:
                    self.rep("C22.number", i, "sent", "%s sends its request under another number than the one it waits for" % self.f.dname, st)
        return None

    def on_ret(self, eng, st, i, val):
        if st.ts[2]:
            self.rep("C22.given-up", i, "pending", "%s returns while its request is still on the list: a late response would be stored in a frame that is gone" % self.f.dname, st)


def cellof(f, o):
    p = ir.ap(f, o)
    return ("al", p[1][1]) if p[0] == "ld" and p[1][0] == "loc" else None


class Headers(Fields):
    """headers made out of other headers; typestate: header -> (flags, number, topic, reply topic), each a value or None"""
    def __init__(self, w, f, rep, R):
        self.w, self.f, self.rep, self.R = w, f, rep, R
        self.rets = []

    def init_ts(self, fn):
        return ((), frozenset())

    def ts_live(self, ts):
        return [x for k, v in ts[0] for x in (k,) + tuple(y[1] if isinstance(y, tuple) and y and y[0] == "copy" else y for y in v if y is not None)]

    def whole(self, st, n):
        n = st.const(n)
        size = max((a[2] + a[3] for a in self.w.m.structs[H]), default=0)
        return n is not None and 0 < size <= n <= size + 8

    def get(self, st, h):
        return dict(st.ts[0]).get(h, (None,) * 4)

    def put(self, st, h, k, v):
        d = dict(st.ts[0])
        x = list(d.get(h, (None,) * 4))
        x[k] = v
        d[h] = tuple(x)
        st.ts = (tuple(sorted(d.items(), key=repr)), st.ts[1] - {h})

    def on_store(self, eng, st, i, addr, val):
        self.eng = eng
        b, f = base(addr)
        if f == (H, "flags"):
            self.put(st, b, 0, val)
        elif f == (H, "sequence_number"):
            self.put(st, b, 1, val)
        return None

    def on_call(self, eng, st, i, args):
        self.eng = eng
        n = i.callee_name
        if n and n.startswith("llvm.memcpy"):
            n = "memcpy"
        if n == INIT:
            h = strip0(args[0])
            d = dict(st.ts[0])
            d[h] = (ZERO, ZERO, ZERO, ZERO)
            st.ts = (tuple(sorted(d.items(), key=repr)), st.ts[1] - {h})
            st.mem.pop(mkgep(h, [("f", H, "flags")]), None)
            self.keep = mkgep(h, [("f", H, "flags")])
            return None
        if n in COPY and len(args) > COPY[n][1]:
            dst, s = strip0(args[COPY[n][0]]), strip0(args[COPY[n][1]])
            b, f = base(dst)
            if f and f[0] == H and f[1] in ("topic", "reply_topic"):
                self.put(st, b, 2 if f[1] == "topic" else 3, ("copy", s))
            elif len(args) > 2 and (self.whole(st, args[2]) if COPY[n] == (0, 1) else False):
                # all of another header
                x = self.get(st, s)
                new = []
                for k, v in enumerate(x):
                    m = ("flags", "sequence_number", "topic", "reply_topic")[k]
                    a = mkgep(s, [("f", H, m)])
                    new.append(v if v is not None else ("copy", a) if k > 1 else ("op", "fld:%s.%s" % (H, m), s, ("c", i.id if k == 0 else 0)))
                d = dict(st.ts[0])
                d[dst] = tuple(new)
                st.ts = (tuple(sorted(d.items(), key=repr)), st.ts[1] - {dst})
            return None
        if n in self.R.builders:
            # a helper that makes a header out of another one
            for k, form in self.R.builders[n].items():
                h = strip0(args[k])
                d = dict(st.ts[0])
                d[h] = tuple(relocate(x, args) if x is not None else None for x in form)
                st.ts = (tuple(sorted(d.items(), key=repr)), st.ts[1] - {h})
            return None
        if not (n and n.startswith("llvm.")):
            for a in args:
                a = strip0(a)
                if any(k == a for k, _ in st.ts[0]):
                    self.check(st, i, a)
        return None

    def after_call(self, eng, st, i, args):
        if i.callee_name == INIT:
            st.mem[self.keep] = ZERO
            st.mem[self.keep[:2] + (self.keep[2][:-1] + (("f", H, "sequence_number"),),)] = ZERO
        return None

    def check(self, st, i, h):
        if h in st.ts[1]:
            return
        st.ts = (st.ts[0], st.ts[1] | {h})
        fl, seq, topic, reply = self.get(st, h)
        if fl is None:
            return
        s, c, o = bits(fl)
        f = self.f.dname
        if s & RESP:
            self.R.nreply += 1
            if s & REQ or (o is not None and not c & REQ):
                self.rep("C22.reply", i, "flags", "%s makes a reply that still counts as a request" % f, st)
            t = topicof(topic)
            if t is None or t[1] != (H, "reply_topic"):
                self.rep("C22.reply", i, "topic", "%s makes a reply that does not go to the reply topic of a request" % f, st)
                return
            q = src(seq) if seq is not None else None
            if not (q == (t[0], (H, "sequence_number")) or seq is None and t[0] == h):
                self.rep("C22.reply", i, "sequence_number", "%s makes a reply that does not carry the number of the request it goes back to" % f, st)
            if o is not None and o[0] not in (h, t[0]):
                self.rep("C22.reply", i, "flags", "%s makes a reply out of the headers of two messages" % f, st)
        elif o is not None and o[1] == (H, "flags") and o[0] != h:
            self.R.nforward += 1
            if src(seq) != (o[0], (H, "sequence_number")):
                self.rep("C22.forward", i, "sequence_number", "%s passes a message on under another sequence number" % f, st)
            for x, k in ((topic, "topic"), (reply, "reply_topic")):
                if topicof(x) != (o[0], (H, k)):
                    self.rep("C22.forward", i, k, "%s passes a message on with another %s" % (f, k.replace("_", " ")), st)

    def on_ret(self, eng, st, i, val):
        out = {}
        for h, form in st.ts[0]:
            if h[0] == "p":
                self.check(st, i, h)
                out[h[1]] = form
        self.rets.append(out)


def topicof(t):
    if isinstance(t, tuple) and t and t[0] == "copy":
        return base(t[1])
    return None


def relocate(x, args):
    """a value of a helper in terms of its caller"""
    if not isinstance(x, tuple):
        return x
    if x and x[0] == "p" and len(x) == 2 and isinstance(x[1], int):
        return strip0(args[x[1]])
    y = tuple(relocate(e, args) for e in x)
    if y and y[0] == "gep":
        return mkgep(y[1], list(y[2]))
    return y


class Rx:
    pass


def run(w, res):
    m = w.m
    R = Rx()
    R.L = L = Locks(w)
    R.ctx = contexts(w, L)[0]
    R.nstore = R.npost = R.npush = R.nremove = R.nsend = R.nreply = R.nforward = 0
    R.builders, R.roles = {}, {}
    seen = set()

    def mk(f):
        def rep(rule, i, obj, text, st=None):
            k = (rule, f.dname, obj)
            if k not in seen:
                seen.add(k)
                res.add(rule, f.dname, obj, i.where(), text, trail_text(st, 8) if st else "")
        return rep

    def go(f, c):
        if Engine(w, f, c).run().over:
            raise RuntimeError("path budget exceeded in " + f.name)
        return c

    def writes(f, what):
        return any(i.op == "store" and ir.apclass(ir.ap(f, i.ops[1])) in what for i in f.insts())

    live = [f for f in m.defined() if not f.inlinedAway]
    # which parameters of a sender end up in which field of the header it encodes
    for f in live:
        if not any(True for i in f.calls(ENC)) and f.dname != ENC:
            continue
        ro = {}
        for i in f.insts():
            if i.op == "store":
                p = ir.ap(f, i.ops[1])
                if p[0] == "fld" and p[2] == H and p[3] in ("flags", "sequence_number"):
                    v = ir.ap(f, i.ops[0])
                    k = v[1] if v[0] == "arg" else None
                    if k is None and isinstance(i.ops[0], int):
                        k = argof(f, i.ops[0])
                    if k is not None:
                        ro[p[3]] = k
            elif i.op == "call" and i.callee_name in COPY:
                p = ir.ap(f, i.ops[COPY[i.callee_name][0]])
                while p[0] == "idx":
                    p = p[1]
                s = i.ops[COPY[i.callee_name][1]]
                k = argof(f, s) if isinstance(s, (int, list)) else None
                if p[0] == "fld" and p[2] == H and p[3] in ("topic", "reply_topic") and k is not None:
                    ro[p[3]] = k
        if {"flags", "sequence_number"} <= set(ro):
            R.roles[f.name] = ro
            for k in ("topic", "reply_topic"):
                if k not in ro:
                    mk(f)("C22.sender", f.calls(ENC)[0] if isinstance(f.calls(ENC), list) else next(iter(f.calls(ENC))), k, "%s takes flags and number of a message from its caller, but not its %s" % (f.dname, k))
    # headers, helpers first
    nh = 0
    for n in w.bottom_up():
        f = m.funcs.get(n)
        if f is None or f.decl or f.inlinedAway or not writes(f, {H + ".flags", H + ".sequence_number"}) and not any(i.callee_name in R.builders or copieshdr(f, i, m) for i in f.calls()):
            continue
        if f.dname in (INIT, ENC, "rtMessageHeader_Decode") or f.name in R.roles:
            continue
        c = go(f, Headers(w, f, mk(f), R))
        nh += 1
        outs = [r for r in c.rets if r]
        if outs and all(r == outs[0] for r in c.rets):
            R.builders[n] = outs[0]
    # a sender's callers: a response goes to the topic and number of one request header, a request names the own inbox
    nsend = 0
    reqhdr = defaultdict(set)       # function -> parameters that are the header of the request being answered
    for f in live:
        for i in f.calls(*R.roles) if R.roles else ():
            ro = R.roles[i.callee_name]
            nsend += 1
            fl = flagbits(f, i.ops[ro["flags"]])
            rep = mk(f)
            t, rt, q = (ir.ap(f, i.ops[ro[k]]) if k in ro else ("?",) for k in ("topic", "reply_topic", "sequence_number"))
            t, rt = strip_idx(t), strip_idx(rt)
            if fl & RESP:
                R.nreply += 1
                if fl & REQ:
                    rep("C22.reply", i, "flags", "%s sends a message that is a request and a response at once" % f.dname)
                if t[0] != "fld" or t[2:] != (H, "reply_topic"):
                    rep("C22.reply", i, "topic", "%s sends a response to something else than the reply topic of a request" % f.dname)
                elif q != ("ld", ("fld", t[1], H, "sequence_number")):
                    rep("C22.reply", i, "sequence_number", "%s sends a response under a number that is not the one of the request it goes back to" % f.dname)
                elif t[1][0] == "arg":
                    reqhdr[f.name].add(t[1][1])
            elif fl & REQ:
                if rt[0] not in ("fld", "ld") or "inbox_name" not in repr(rt):
                    rep("C22.inbox", i, "reply_topic", "%s sends a request whose answer does not come to its own connection" % f.dname)
    # the header a response is made for is the request's own, or a copy of it
    work = [(n, k) for n, ks in reqhdr.items() for k in ks]
    done = set()
    nhdr = 0
    while work:
        n, k = work.pop()
        if (n, k) in done:
            continue
        done.add((n, k))
        for i in m.callers().get(n, ()):
            f = i.fn
            if f.inlinedAway or k >= len(i.ops):
                continue
            nhdr += 1
            p = ir.ap(f, i.ops[k])
            if p[0] == "arg":
                work.append((f.name, p[1]))
            elif p[0] == "fld" and p[2] != H:
                # kept in a record: filled as a whole from a header that was received
                src_ok = 0
                for g in live:
                    for j in g.insts():
                        d = None
                        if j.op == "store":
                            x = ir.ap(g, j.ops[1])
                            if "'%s', '%s'" % p[2:] in repr(x):
                                mk(g)("C22.header", j, p[3], "%s changes a part of the request header kept in %s.%s" % (g.dname, p[2], p[3]))
                        elif j.op == "call" and j.callee_name and (j.callee_name.startswith("llvm.memcpy") or j.callee_name in ("memcpy", "memmove")):
                            x = ir.ap(g, j.ops[0])
                            if x[:1] == ("fld",) and x[2:] == p[2:]:
                                s = ir.ap(g, j.ops[1])
                                size = [a[3] for a in m.structs[p[2]] if a[0] == p[3]][0]
                                if j.ops[2][:2] != ["c", size]:
                                    mk(g)("C22.header", j, p[3], "%s keeps only a part of the request header in %s.%s" % (g.dname, p[2], p[3]))
                                elif s[0] == "arg":
                                    work.append((g.name, s[1]))
                                    src_ok += 1
                                else:
                                    mk(g)("C22.header", j, p[3], "%s keeps something else than the header it was given in %s.%s" % (g.dname, p[2], p[3]))
                if not src_ok:
                    mk(f)("C22.header", i, p[3], "nothing fills %s.%s, the header %s answers" % (p[2], p[3], f.dname))
            elif p[0] == "loc" and wholecopy(f, p, i, m):
                for k2 in wholecopy(f, p, i, m):
                    work.append((f.name, k2))
            elif p[0] == "loc" or p[0] == "ld" or p[0] == "glob":
                mk(f)("C22.header", i, "request_hdr", "%s answers with a header that is not the one of the request it was given" % f.dname)
    # delivery and waiting
    for f in live:
        if gives(f) or any(True for i in f.calls("rtSemaphore_Post")):
            c = Deliver(w, L, f, mk(f), R)
            c.stores = gives(f)
            go(f, c)
        if any("pending_requests_list" in repr(ir.ap(f, i.ops[0])) for i in f.calls(*PUSH)):
            go(f, Request(w, L, f, mk(f), R))
    # the counter
    nc = 0
    for f in live:
        for i in f.insts():
            if i.op == "store" and ir.apclass(ir.ap(f, i.ops[1])) == C + ".sequence_number":
                nc += 1
                p = ir.ap(f, i.ops[1])
                while p[0] in ("fld", "idx"):
                    p = p[1]
                if not (p[0] == "call" or p[0] == "ld" and p[1][0] == "loc" and f.dname.endswith("Create") or created(f)):
                    mk(f)("C22.counter", i, "sequence_number", "%s sets the counter of request numbers: numbers still in use come again" % f.dname)
            elif i.op in ("atomicrmw", "cmpxchg") and ir.apclass(ir.ap(f, i.ops[0])) == C + ".sequence_number":
                nc += 1
                if i.op != "atomicrmw" or getattr(i, "rmw", "add") != "add" or i.ops[1][:2] != ["c", 1]:
                    mk(f)("C22.counter", i, "sequence_number", "%s does not count the request numbers up by one" % f.dname)
    res.count("responses_stored", R.nstore, 1)
    res.count("callers_woken", R.npost, 1)
    res.count("requests_queued", R.npush, 1)
    res.count("requests_taken_off", R.nremove, 1)
    res.count("requests_sent", R.nsend, 1)
    res.count("header_functions", nh, 4)
    res.count("replies_made", R.nreply, 4)
    res.count("messages_passed_on", R.nforward, 1)
    res.count("send_sites", nsend, 5)
    res.count("request_header_sites", nhdr, 4)
    res.count("counter_sites", nc, 3)
    res.rule("C22.match/twice/locked/wake: a response is stored in a pending request only with the connection's mutex, on a path that found the message to be a response, the numbers equal and no response yet there, and the caller is woken exactly then; "
             "C22.number: a queued request carries a number freshly drawn from the connection's counter, and is sent under that number; C22.given-up: on every path the request is off the list before its record goes; "
             "C22.counter: the counter only counts up; C22.reply/inbox/header: reply flags, topic and number are taken from one and the same request header, which is the one received or a whole copy of it; "
             "C22.forward: the broker passes number, topic and reply topic on as they came")


def gives(f):
    """f stores a response in a pending request (not just NULL)"""
    return any(i.op == "store" and ir.apclass(ir.ap(f, i.ops[1])) == P + ".response" and not (isinstance(i.ops[0], list) and i.ops[0][:1] in (["null"], ["c"])) for i in f.insts())


def created(f):
    return any(a in f.dname for a in ("CreateInternal", "_Create")) or any(i.callee_name and ("malloc" in i.callee_name or "calloc" in i.callee_name) for i in f.calls())


def copieshdr(f, i, m):
    """a whole header is copied into a local one"""
    n = i.callee_name
    size = max((a[2] + a[3] for a in m.structs[H]), default=0)
    return bool(n and (n.startswith("llvm.memcpy") or n in ("memcpy", "memmove")) and i.ops[2][:1] == ["c"] and 0 < size <= i.ops[2][1] <= size + 8 and ir.ap(f, i.ops[0])[0] == "loc") if n and len(i.ops) > 2 and isinstance(i.ops[2], list) else False


def wholecopy(f, p, site, m):
    """parameters a local header is a whole copy of, if nothing else writes it"""
    out = set()
    for j in f.insts():
        if j.op == "store":
            x = ir.ap(f, j.ops[1])
            while x[0] in ("fld", "idx"):
                x = x[1]
            if x == p:
                return set()
        elif j.op == "call" and j.callee_name and (j.callee_name.startswith("llvm.memcpy") or j.callee_name in ("memcpy", "memmove")):
            x = ir.ap(f, j.ops[0])
            if x != p and x[:1] == ("fld",) and x[1] == p:
                return set()
            if x == p:
                s = ir.ap(f, j.ops[1])
                size = sum(0 for _ in ()) or max((a[2] + a[3] for a in m.structs[H]), default=0)
                if s[0] != "arg" or j.ops[2][0] != "c" or not size <= j.ops[2][1] <= size + 8:
                    return set()
                out.add(s[1])
    return out


def strip_idx(p):
    while p[0] == "idx":
        p = p[1]
    return p


def argof(f, v, depth=0):
    """parameter a value is, up to casts, masks and joins with constants"""
    if not isinstance(v, int) or depth > 6:
        p = ir.ap(f, v)
        return p[1] if p[0] == "arg" else None
    p = ir.ap(f, v)
    if p[0] == "arg":
        return p[1]
    d = f.defs.get(ir.strip(f, v))
    if d is None:
        return None
    if d.op in ("or", "and", "select", "phi"):
        ks = set()
        for o in (d.ops if d.op != "phi" else [x[1] if isinstance(x, (list, tuple)) and len(x) == 2 else x for x in d.ops]):
            k = argof(f, o, depth + 1)
            if k is not None:
                ks.add(k)
        return ks.pop() if len(ks) == 1 else None
    return None


def flagbits(f, o):
    """bits a flags argument has for sure"""
    if isinstance(o, list) and o[0] == "c":
        return o[1] & 0xffffffff
    d = f.defs.get(ir.strip(f, o)) if isinstance(o, int) else None
    if d is not None and d.op == "or":
        return flagbits(f, d.ops[0]) | flagbits(f, d.ops[1])
    if d is not None and d.op in ("select",):
        return flagbits(f, d.ops[1]) & flagbits(f, d.ops[2])
    return 0
