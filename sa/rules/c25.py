"""Events: who is looked up, who is sent an event, who is called with it."""
from collections import defaultdict
import ir
from engine import *
from rules import c19, c24, c25f
from rules.c24 import F, out, eq, same_string
from rules.c22 import strip0, base
from rules.c18 import fld

SUBS = "_rbusSubscription"
PURE = {"rbusFilter_Apply": "apply", "TokenChain_match": "match"}
SENDMSG = {"rbus_sendMessage": 1, "rtConnection_SendBinaryDirect": 3}        # through the broker: which argument is the destination
SENDERS = ("rbus_publishSubscriberEvent", "rbuscore_publishDirectSubscriberEvent")


def names(w):
    """the struct names of what is talked about, by the types of the fields they must have"""
    return {s: {x[0] for x in fs} for s, fs in w.m.structs.items()}


def unary(v):
    """v without a comparison with zero around it: (value, negated)"""
    neg = False
    while v[0] == "op" and v[1] in ("icmp ne", "icmp eq") and ("c", 0) in v[2:]:
        neg ^= v[1] == "icmp eq"
        v = v[2] if v[3] == ("c", 0) else v[3]
    return v, neg


def nonzero(st, v):
    f = st.facts.get(v)
    return bool(st.const(v) not in (None, 0) or f and (f[0] > 0 or f[1] < 0 or len(f) > 2 and f[2] and 0 in f[2]))


def zero(st, v):
    return st.const(v) == 0 or st.rng(v) == (0, 0)


def contains(v, x):
    if v == x:
        return True
    return isinstance(v, tuple) and any(contains(y, x) for y in v if isinstance(y, tuple))


class Ev(c24.Bus):
    """fields carry where they come from; what only reads gives the same for the same"""
    MAXSTEPS = 400000
    K = 16
    DEPTH = 8

    def __init__(self, w, f, R):
        c24.Bus.__init__(self, w, f, R)
        self.STRUCTS = R.structs

    def on_call(self, eng, st, i, args):
        n = i.callee_name
        if n in PURE:
            st.regs[i.id] = ("op", PURE[n], args[0], args[1])
            return [st]
        if n == "rbusFilter_Compare":
            a, b = sorted((args[0], args[1]), key=repr)
            st.regs[i.id] = ("op", "fcmp", a, b)
            return [st]
        if n == "rbusValue_Compare":
            a, b = sorted((args[0], args[1]), key=repr)
            st.regs[i.id] = ("op", "vcmp", a, b)
            return [st]
        if n == "rbusObject_GetValue" and args[1][0] == "s":
            st.regs[i.id] = ("op", "get:" + args[1][1], args[0], ZERO)
            return [st]
        if n in ("rbusProperty_GetValue", "rbusProperty_GetName"):
            st.regs[i.id] = ("op", n, args[0], ZERO)
            return [st]
        return c24.Bus.on_call(self, eng, st, i, args)

    def bad(self, rule, i, obj, text, st):
        self.R.bad(rule, self.f, obj, i, text, st)


# ---------------------------------------------------------------- publishing

class Publish(Ev):
    """a walk over the subscriptions of an element that sends to them
    typestate: (item the walk is at, entry not decided yet, entry sent to, messages filled: (message, event, entry), phase, what is known of the entry)"""

    def __init__(self, w, f, R, raw, ev):
        Ev.__init__(self, w, f, R)
        self.raw, self.ev = raw, ("p", ev)

    def init_ts(self, fn):
        return (None, None, None, frozenset(), None, frozenset(), None, True)

    def ts_live(self, ts):
        return [F(*self.R.evtype, self.ev)] + [x for x in ts[:3] if x] + [y for x in ts[3] for y in x if y]

    def kind(self, st):
        """whether the event is a change of a value"""
        t, vc = F(*self.R.evtype, self.ev), self.R.valuechanged
        if st.const(t) == vc:
            return "y"
        if st.const(t) is not None or st.rng(t)[0] > vc or st.rng(t)[1] < vc or (st.facts.get(t) and vc in st.facts[t][2]):
            return "n"
        return None

    def known(self, st, e):
        """what is known about what the entry is due"""
        k = set()
        S = lambda n: F(SUBS, n, e)
        if st.isnull(e) or st.isnull(S("eventName")) or st.isnull(S("listener")):
            k.add("none")
        if zero(st, S("rawData")):
            k.add("cooked")
        elif nonzero(st, S("rawData")):
            k.add("raw")
        fl = S("filter")
        if st.isnull(fl):
            k.add("nofilter")
        if self.kind(st) == "n":
            k.add("nofilter")
        data = F(self.R.evtype[0], "data", self.ev)
        a, b = (("op", "apply", fl, ("op", "get:" + n, data, ZERO)) for n in ("value", "oldValue"))
        va, vb = st.const(a), st.const(b)
        if va is not None and vb is not None:
            k.add("same" if va == vb else "crossed")
        elif nonzero(st, a) and nonzero(st, b):
            k.add("same")
        elif nonzero(st, a) and zero(st, b) or zero(st, a) and nonzero(st, b):
            k.add("crossed")
        for x, f in st.facts.items():
            if x[0] == "op" and x[1] == "icmp eq" and f[0] == f[1]:
                (p, n1), (q, n2) = unary(x[2]), unary(x[3])
                if {p, q} == {a, b}:
                    k.add("same" if (f[0] == 1) ^ n1 ^ n2 else "crossed")
            if x[0] == "op" and x[1] == "xor" and {unary(x[2])[0], unary(x[3])[0]} == {a, b}:
                z = unary(x[2])[1] ^ unary(x[3])[1]
                if zero(st, x):
                    k.add("crossed" if z else "same")
                elif nonzero(st, x):
                    k.add("same" if z else "crossed")
        return k

    def due(self, k):
        """True: it must be sent to; False: it must not; None: not known"""
        if "none" in k:
            return False
        if self.raw:
            return True if "raw" in k else False if "cooked" in k else None
        if "raw" in k or "same" in k and "nofilter" not in k:
            return False
        return True if "cooked" in k and ("nofilter" in k or "crossed" in k) else None

    def ts_prune(self, st):
        item, e, sent, msgs, ph, k, kd, seen = st.ts
        if e is not None:
            k = k | self.known(st, e)
        if ph == "walk" and item is not None and st.isnull(item):
            ph = "over"
        return (item, e, sent, msgs, ph, frozenset(k), kd or self.kind(st), seen)

    def finish(self, st, i):
        item, e, sent, msgs, ph, k, kd, seen = st.ts = self.ts_prune(st)
        if e is not None:
            if sent is None and self.due(k) is not False:
                self.bad("C25.each", i, "skipped", "a subscriber is passed over although nothing says that the event is not for it", st)
            st.ts = (item, None, None, msgs, ph, frozenset(), kd, seen)

    def on_call(self, eng, st, i, args):
        n = i.callee_name
        self.mine = None
        if n == "rtListItem_GetNext" and st.ts[0] is not None and args[0] == st.ts[0]:
            # the step may come before the entry is dealt with
            st.ts = self.ts_prune(st)
            if not st.ts[7] and st.isnull(st.ts[0]) is not True:
                self.bad("C25.each", i, "skipped", "a subscriber is passed over without being looked at", st)
            if st.ts[2] is not None or st.ts[1] is not None and self.due(st.ts[5]) is False:
                self.finish(st, i)
            self.mine = True
        elif n == "rtListItem_GetData" and st.ts[0] is not None and args[0] == st.ts[0]:
            if not st.ts[7]:
                self.finish(st, i)
                self.mine = True
        elif n == "rtList_GetFront":
            g = fld(args[0])
            self.mine = bool(g and g[2] == "subscriptions" and any(x[0] == "subscriptions" for x in self.w.m.structs.get(g[1], ())))
            if self.mine:
                self.element(eng, st, i, g[0])
        elif n in SENDERS:
            self.send(eng, st, i, args)
        elif n == "rbus_sendData":
            if self.raw and st.ts[4] == "over":
                p = self.ev
                for x, y, t in ((args[0], F(self.R.rawtype, "rawData", p), "data"), (args[1], F(self.R.rawtype, "rawDataLen", p), "length")):
                    if x != y:
                        self.bad("C25.args", i, n, "raw data goes out with another %s than the one that is published" % t, st)
                st.ts = st.ts[:4] + ("cast",) + st.ts[5:]
        elif n == "rbusMessage_Release":
            st.ts = st.ts[:3] + (frozenset(x for x in st.ts[3] if x[0] != args[0]),) + st.ts[4:]
        elif n == "rbusEventData_appendToMessage":
            self.fill(st, i, args)
        return Ev.on_call(self, eng, st, i, args)

    def element(self, eng, st, i, node):
        """the element is the one the event is named after"""
        self.R.count("publications")
        if not (node[0] == "op" and node[1] == "element"):
            self.bad("C25.args", i, "element", "the subscriptions walked are not those of the element that the event names", st)

    def fill(self, st, i, args):
        e = st.ts[1]
        if e is None:
            return
        want = [self.ev] + [F(SUBS, n, e) for n in ("filter", "interval", "duration", "componentId")]
        for x, y, t in zip(args, want, ("event", "filter", "interval", "duration", "component")):
            if x != y:
                self.bad("C25.args", i, n_(i), "the message for a subscriber carries another %s than its own" % t, st)
        st.ts = st.ts[:3] + (st.ts[3] | {(args[5], e)},) + st.ts[4:]

    def send(self, eng, st, i, args):
        item, e, sent, msgs, ph, k, kd, seen = st.ts = self.ts_prune(st)
        self.R.count("sends")
        if e is None:
            if ph is not None:
                self.bad("C25.args", i, n_(i), "an event is sent although no subscriber is looked at", st)
            return
        d = self.due(k)
        if d is None or d is False:
            self.bad("C25.only", i, n_(i), "an event is sent to a subscriber without knowing that it is one the event is for (its kind and its filter)", st)
        if sent is not None:
            self.bad("C25.only", i, n_(i), "an event is sent to the same subscriber twice", st)
        self.R.sendargs(self, st, i, args, e, self.ev)
        if not self.raw and (args[3], e) not in msgs:
            self.bad("C25.args", i, n_(i), "what is sent to a subscriber was not made for it from the event", st)
        st.ts = (item, e, e, msgs, ph, k, kd, seen)

    def after_call(self, eng, st, i, args):
        Ev.after_call(self, eng, st, i, args)
        n = i.callee_name
        if n == "rtList_GetFront" and self.mine:
            st.ts = (out(st, i, 1), None, None, st.ts[3], "walk", frozenset(), st.ts[6], False)
        elif n == "rtListItem_GetNext" and self.mine:
            st.ts = (out(st, i, 1),) + st.ts[1:7] + (False,)
        elif n == "rtListItem_GetData" and self.mine:
            st.ts = (st.ts[0], out(st, i, 1), None) + st.ts[3:5] + (frozenset(), st.ts[6], True)
        elif n == "rbusMessage_Init":
            eng.store(st, args[0], eng.fresh(st, i))
        elif n == "retrieveInstanceElement":
            if args[1] == F(self.R.rawtype if self.raw else self.R.evtype[0], "name", self.ev):
                st.facts.pop(st.regs[i.id], None)
                st.regs[i.id] = ("op", "element", args[0], args[1])
        return None

    def on_ret(self, eng, st, i, val):
        self.finish(st, i)
        item, e, sent, msgs, ph, k, kd, seen = st.ts
        if ph is None and val is not None and st.const(val) == 0:
            self.bad("C25.each", i, "unsent", "the publication succeeds without having looked at the subscribers of the element", st)
        elif ph == "walk":
            self.bad("C25.each", i, "end", "the publication ends before every subscriber of the element was looked at", st)
        elif ph == "over" and self.raw:
            self.bad("C25.each", i, "cast", "raw data is not sent to those who listen for it without a connection of their own", st)


def n_(i):
    return i.callee_name


def publishers(R):
    w = R.w
    n = 0
    for f in w.m.defined(True):
        if f.dname in SENDERS or not list(f.calls(*SENDERS)) or not list(f.calls("rtListItem_GetData")):
            continue
        evs = [(k, t) for k, t in enumerate(f.dtypes[1:]) if t.rstrip("*") in (R.evtype[0], R.rawtype) or t in R.evnames]
        if not evs:
            continue
        k, t = evs[0]
        c = Publish(w, f, R, t in R.rawnames, k)
        n += 1
        R.run(f, c)
    R.res.count("functions that publish to the subscribers of an element", n, 2)


# ---------------------------------------------------------------- one subscriber

class Broker(Ev):
    GAT = 3

    def on_load(self, eng, st, i, addr):
        x = Ev.on_load(self, eng, st, i, addr)
        if addr == ("g", "g_connection"):
            for y in x or [st]:
                if x is None:
                    st.regs[i.id] = eng.load(st, i, addr)
                    x = [st]
                y.ts = y.ts[:self.GAT] + (y.regs[i.id],)
        return x


class Send(Broker):
    """sending to one subscriber: by its own connection, or through the broker
    typestate: (connection looked up, sent, there is none, value of the connection with the broker)"""
    CLIENT = {"_rbuscore_find_server_privateconnection", "rbuscore_FindServerPrivateClient"}

    def __init__(self, w, f, R, ev, lis, sid, kind, via):
        Ev.__init__(self, w, f, R)
        self.ev, self.lis, self.sid, self.kind, self.via = ev, lis, sid, kind, via

    def init_ts(self, fn):
        return (None, False, None, None)

    def ts_live(self, ts):
        return [x for x in (ts[0], ts[3]) if x and x is not True]

    def ts_prune(self, st):
        c, s, k, g = st.ts
        if c is not None and k is None:
            k = st.isnull(c)
        if g and g is not True and st.isnull(g):
            g = True
        return (c, s, k, g)

    def on_call(self, eng, st, i, args):
        n = i.callee_name
        if n == "rtRouteDirect_SendMessage":
            self.R.count("sends")
            c, s, k, g = self.ts_prune(st)
            if c is None or strip0(args[0]) != strip0(c) or k is not False:
                self.bad("C25.args", i, n, "an event is sent over a connection that is not the subscriber's own", st)
            if args[3] != ("p", self.sid):
                self.bad("C25.args", i, n, "an event is sent with another subscription id than the subscriber's", st)
            if s:
                self.bad("C25.only", i, n, "an event is sent to a subscriber twice", st)
            st.ts = (c, True, k, g)
        elif n in SENDMSG:
            self.R.count("sends")
            c, s, k, g = self.ts_prune(st)
            if args[SENDMSG[n]] != ("p", self.lis):
                self.bad("C25.args", i, n, "an event is sent to another listener than the subscriber", st)
            if s:
                self.bad("C25.only", i, n, "an event is sent to a subscriber twice", st)
            st.ts = (c, True, k, g)
        return Ev.on_call(self, eng, st, i, args)

    def after_call(self, eng, st, i, args):
        Ev.after_call(self, eng, st, i, args)
        if i.callee_name in self.CLIENT:
            if args[1] != ("p", self.lis) or args[0] != ("p", self.ev) and not st.isnull(("p", self.ev)) and args[0][0] != "j":
                self.bad("C25.args", i, i.callee_name, "the connection is looked up by something else than the event and the subscriber", st)
            st.ts = (st.regs[i.id], st.ts[1], None, st.ts[3])
        return None

    def on_ret(self, eng, st, i, val):
        c, s, k, g = self.ts_prune(st)
        if s or g is True:
            return
        if c is None:
            if not (val is not None and st.const(val) not in (0, None)):
                self.bad("C25.each", i, "unsent", "the operation ends without having sent the event, and is no failure", st)
        elif k is not True or self.via:
            self.bad("C25.each", i, "unsent", "the operation ends without having sent the event to the subscriber", st)


class Other(Ev):
    """anything else that sends to a subscriber: all that is used belongs to the same subscription
    typestate: messages filled (message, subscription)"""

    def init_ts(self, fn):
        return frozenset()

    def ts_live(self, ts):
        return [y for x in ts for y in x]

    def on_call(self, eng, st, i, args):
        n = i.callee_name
        if n in SENDERS:
            self.R.count("sends")
            g = fld(args[1 if n == SENDERS[0] else 0])
            if not g or g[1:] != (SUBS, "eventName"):
                self.bad("C25.args", i, n, "an event is sent under a name that is not the subscription's", st)
                return None
            self.R.sendargs(self, st, i, args, g[0])
            if n == SENDERS[0] and (args[3], g[0]) not in st.ts:
                self.bad("C25.args", i, n, "what is sent to a subscriber was not made for it", st)
        elif n == "rbusEventData_appendToMessage":
            g = fld(args[2])
            if not g or g[1] != SUBS:
                self.bad("C25.args", i, n, "the message for a subscriber does not carry what it subscribed with", st)
                return None
            for x, t in zip(args[1:5], ("filter", "interval", "duration", "componentId")):
                if x != F(SUBS, t, g[0]):
                    self.bad("C25.args", i, n, "the message for a subscriber carries another %s than its own" % t, st)
            st.ts = st.ts | {(args[5], g[0])}
        elif n == "rbusMessage_Release":
            st.ts = frozenset(x for x in st.ts if x[0] != args[0])
        return Ev.on_call(self, eng, st, i, args)

    def after_call(self, eng, st, i, args):
        Ev.after_call(self, eng, st, i, args)
        if i.callee_name == "rbusMessage_Init":
            eng.store(st, args[0], eng.fresh(st, i))
        return None


class Legacy(Broker):
    """a walk over the listeners of an event of the older interface: each gets it
    typestate: (listener looked at, sent, number of listeners, the walk is over, value of the connection with the broker)"""
    GAT = 4

    def init_ts(self, fn):
        return (None, False, None, False, None)

    def ts_live(self, ts):
        return [x for x in (ts[0], ts[2], ts[4]) if x and x is not True]

    def ts_prune(self, st):
        e, s, n, o, g = st.ts
        if g and g is not True and st.isnull(g):
            g = True
        if n is not None and not o:
            o = Find.end(st, n)
        return (e, s or g is True or e is not None and bool(st.isnull(e)), n, o, g)

    def listeners(self, i):
        return ir.apclass(ir.ap(self.f, i.ops[0])).endswith(".listeners")

    def finish(self, st, i):
        e, s, n, o, g = self.ts_prune(st)
        if e is not None and not s:
            self.bad("C25.each", i, "skipped", "a listener of the event is passed over", st)
        st.ts = (None, False, n, o, None)

    def on_call(self, eng, st, i, args):
        n = i.callee_name
        if n in ("rtVector_At", "rtVector_Size") and self.listeners(i):
            self.finish(st, i)
        elif n in SENDMSG:
            self.R.count("sends")
            if st.ts[0] is None or args[SENDMSG[n]] != st.ts[0] or st.ts[1]:
                self.bad("C25.args", i, n, "an event is sent to something else than the listener looked at", st)
            st.ts = (st.ts[0], True) + st.ts[2:]
        return Ev.on_call(self, eng, st, i, args)

    def after_call(self, eng, st, i, args):
        Ev.after_call(self, eng, st, i, args)
        n = i.callee_name
        if n == "rtVector_At" and self.listeners(i):
            st.ts = (st.regs[i.id], False) + st.ts[2:]
        elif n == "rtVector_Size" and self.listeners(i):
            st.ts = (None, False, st.regs[i.id], False, None)
        return None

    def on_ret(self, eng, st, i, val):
        self.finish(st, i)
        e, s, n, o, g = self.ts_prune(st)
        if n is not None and not o:
            self.bad("C25.each", i, "end", "the publication ends before every listener of the event was looked at", st)


def senders(R):
    w = R.w
    n = 0
    for name, (ev, lis, sid, kind, via) in {SENDERS[0]: (1, 2, 4, 5, True), SENDERS[1]: (0, 1, 4, 5, False)}.items():
        f = w.m.fn(name)
        if f is not None:
            n += 1
            R.run(f, Send(w, f, R, ev, lis, sid, kind, via))
    for f in w.m.defined(True):
        if f.dname in SENDERS:
            continue
        if list(f.calls(*SENDMSG)) and list(f.calls("rtVector_At")):
            n += 1
            indexes(R, f)
            R.run(f, Legacy(w, f, R))
        if not list(f.calls(*SENDERS)):
            continue
        if not (list(f.calls("rtListItem_GetData")) and any(t in R.evnames for t in f.dtypes[1:])):
            n += 1
            R.run(f, Other(w, f, R))
    R.res.count("functions that send to a subscriber", n, 4)


# ---------------------------------------------------------------- what changed

class Change(Ev):
    """polling for changes: published exactly if the value differs from the one published last
    typestate: (record, result of the get, property read, published, recorded, told, excused, where the walk over the records is)"""
    N = (None, None, None, False, False, frozenset(), False, None)
    WAITS = ("pthread_cond_timedwait", "pthread_cond_wait", "usleep", "sleep", "nanosleep")

    def init_ts(self, fn):
        return self.N

    def ts_live(self, ts):
        return [x for x in ts[:3] if x] + ([ts[7][0]] if ts[7] else [])

    def both(self, e, p):
        return ("op", "rbusProperty_GetValue", p, ZERO), ("op", "rbusProperty_GetValue", F(self.R.rec, "property", e), ZERO)

    def cmp(self, e, p):
        a, b = sorted(self.both(e, p), key=repr)
        return ("op", "vcmp", a, b)

    def ts_prune(self, st):
        e, r, p, pub, rec, told, ex, wk = st.ts
        if e is not None and not ex:
            ex = bool(st.isnull(e) or r is not None and nonzero(st, r) or p is not None and zero(st, self.cmp(e, p)))
        if wk is not None and not wk[1]:
            wk = (wk[0], Find.end(st, wk[0]))
        return (e, r, p, pub, rec, told, ex, wk)

    def finish(self, st, i):
        e, r, p, pub, rec, told, ex, wk = self.ts_prune(st)
        if e is not None:
            if not pub and not ex:
                self.bad("C25.change", i, "skipped", "a value that is polled is passed over although nothing says that it did not change", st)
            if pub and not rec:
                self.bad("C25.change", i, "recorded", "a change is published and the value is not remembered as the one published last", st)
        st.ts = self.N[:7] + (wk,)

    def on_call(self, eng, st, i, args):
        n = i.callee_name
        e, r, p, pub, rec, told, ex, wk = st.ts
        if n == "rtVector_At" or n == "rtVector_Size":
            self.finish(st, i)
        elif n in self.WAITS:
            self.finish(st, i)
            self.walked(st, i)
        elif e is not None and n is None:
            g = fld(eng.val(st, i.callee))
            if g and g[2] == "getHandler" and p is not None and args[1] == p:
                self.gets = True
                if args[0] != F(self.R.rec, "handle", e) or not contains(g[0], F(self.R.rec, "node", e)):
                    self.bad("C25.change", i, "getHandler", "the value is read from another element than the one that is polled", st)
        elif n == "rbusObject_SetValue" and e is not None and args[1][0] == "s":
            st.ts = (e, r, p, pub, rec, told | {(args[1][1], args[2])}, ex, wk)
        elif n == "rbusEvent_Publish" and e is not None:
            self.R.count("changes")
            if not nonzero(st, self.cmp(e, p)) if p is not None else True:
                self.bad("C25.change", i, n, "a change is published although nothing says that the value changed", st)
            if r is None or not zero(st, r):
                self.bad("C25.change", i, n, "a change is published although the value may not have been read", st)
            if args[0] != F(self.R.rec, "handle", e):
                self.bad("C25.change", i, n, "a change is published by another component than the one that has the property", st)
            if p is not None:
                new, old = self.both(e, p)
                for t, v in (("value", new), ("oldValue", old)):
                    if (t, v) not in told:
                        self.bad("C25.change", i, t, "what is published as %s of a change is not the value" % t, st)
            c = {lastfield(k)[1]: v for k, v in st.mem.items() if k[0] == "gep" and root(k) == root(args[1]) and lastfield(k) and lastfield(k)[0] == self.R.evtype[0]}
            if c.get("name") not in (("op", "rbusProperty_GetName", F(self.R.rec, "property", e), ZERO), ("op", "rbusProperty_GetName", p, ZERO)) and not (
                    c.get("name") and contains(c["name"], F(self.R.rec, "node", e))):
                self.bad("C25.change", i, "name", "a change is published under another name than the property's", st)
            if c.get("type") is None or st.const(c["type"]) != self.R.valuechanged:
                self.bad("C25.change", i, "type", "a change is not published as a change of a value", st)
            st.ts = (e, r, p, True, rec, told, ex, wk)
        elif n == "rbusProperty_SetValue" and e is not None and args[0] == F(self.R.rec, "property", e):
            if p is not None and args[1] == self.both(e, p)[0]:
                st.ts = (e, r, p, pub, True, told, ex, wk)
            else:
                self.bad("C25.change", i, n, "what is remembered as published last is not the value that was read", st)
        return Ev.on_call(self, eng, st, i, args)

    def walked(self, st, i):
        wk = st.ts[7]
        if wk is not None and not wk[1]:
            self.bad("C25.change", i, "end", "polling ends before every value was looked at", st)
        st.ts = self.N

    gets = False

    def after_call(self, eng, st, i, args):
        Ev.after_call(self, eng, st, i, args)
        n = i.callee_name
        if n == "rtVector_At":
            st.ts = (st.regs[i.id],) + self.N[1:7] + (st.ts[7],)
        elif n == "rtVector_Size":
            st.ts = self.N[:7] + ((st.regs[i.id], False),)
        elif n == "rbusProperty_Init":
            v = eng.fresh(st, i)
            eng.store(st, args[0], v)
            st.ts = st.ts[:2] + (v,) + st.ts[3:]
        elif n is None and self.gets:
            st.ts = (st.ts[0], st.regs[i.id]) + st.ts[2:]
        self.gets = False
        return None

    def on_ret(self, eng, st, i, val):
        self.finish(st, i)
        self.walked(st, i)


def changes(R):
    n = 0
    for f in R.w.m.defined(True):
        if list(f.calls("rbusEvent_Publish")) and list(f.calls("rbusValue_Compare")):
            n += 1
            if list(f.calls("rtVector_At")):
                indexes(R, f)
                R.run(f, Change(R.w, f, R))
    R.res.count("functions that poll for changes", n, 1)


# ---------------------------------------------------------------- the consumer

class Receive(Ev):
    """an event received: the handler called is that of the subscription it is for
    typestate: (handle of the component, subscription found, called, excused, not found)"""
    OUT = ("event", "filter", "interval", "duration", "componentId")

    def __init__(self, w, f, R, name, udata):
        Ev.__init__(self, w, f, R)
        self.ename, self.udata = ("p", name), ("p", udata)

    def init_ts(self, fn):
        return (None, None, False, False)

    def ts_live(self, ts):
        return [x for x in ts[:2] if x]

    def ts_prune(self, st):
        h, e, c, x = st.ts
        if e is not None and not x:
            x = bool(st.isnull(e)) or nonzero(st, F(self.R.subint, "dirty", e))
        elif h is not None and e is None and not x:
            x = bool(st.isnull(h))
        return (h, e, c, x)

    @staticmethod
    def got(t):
        return ("op", "event:" + t, ZERO, ZERO)

    def on_call(self, eng, st, i, args):
        n = i.callee_name
        if n == "rbusHandleList_GetByComponentID" and args[0] != self.got("componentId"):
            self.bad("C25.receive", i, n, "the component is not looked up by the id in the event", st)
        elif n == "rbusEventSubscription_find":
            h = st.ts[0]
            want = ((0, F("_rbusHandle", "eventSubs", h) if h else None, "component"), (1, self.ename, "name"), (2, self.got("filter"), "filter"),
                    (3, self.got("interval"), "interval"), (4, self.got("duration"), "duration"), (5, ZERO, "kind"))
            for k, v, t in want:
                if args[k] != v and not (v == ZERO and zero(st, args[k])):
                    self.bad("C25.receive", i, n, "the subscription is looked up by another %s than the event's" % t, st)
        elif n is None:
            g = fld(eng.val(st, i.callee))
            if g and g[2] == "handler" and len(args) == 3:
                self.R.count("events received")
                S = g[0]
                e = st.ts[1]
                if not (e is not None and S == F(self.R.subint, "sub", e) or S == self.udata):
                    self.bad("C25.receive", i, "handler", "an event is given to the handler of another subscription than the one that was found for it", st)
                else:
                    if e is not None and not st.isnull(e) is False:
                        self.bad("C25.receive", i, "handler", "an event is given to a subscription that need not have been found", st)
                    if args[2] != S or fld(args[0]) is None or fld(args[0])[0] != S or fld(args[0])[2] != "handle":
                        self.bad("C25.receive", i, "arguments", "a handler is called with another subscription or handle than its own", st)
                    if not any(a == strip0(args[1]) for a in self.events):
                        self.bad("C25.receive", i, "event", "a handler is called with another event than the one that was received", st)
                    st.ts = st.ts[:2] + (True,) + st.ts[3:]
        return Ev.on_call(self, eng, st, i, args)

    def after_call(self, eng, st, i, args):
        Ev.after_call(self, eng, st, i, args)
        n = i.callee_name
        if n == "rbusEventData_updateFromMessage":
            self.events.add(strip0(args[0]))
            for a, t in zip(args[1:5], self.OUT[1:]):
                eng.store(st, a, self.got(t))
        elif n == "rbusHandleList_GetByComponentID":
            st.ts = (st.regs[i.id],) + st.ts[1:]
        elif n == "rbusEventSubscription_find":
            st.ts = (st.ts[0], st.regs[i.id], False, False)
        return None

    def on_ret(self, eng, st, i, val):
        h, e, c, x = self.ts_prune(st)
        if not c and not x and (e is not None or not self.uses):
            f = [g for k, g in st.facts.items() if k == self.udata]
            if e is None and (st.isnull(self.udata) or any(st.isnull(F(self.R.sub, n, self.udata)) for n in ("handle", "handler")) or h is not None):
                return
            self.bad("C25.receive", i, "lost", "an event that was received is not given to the subscription it is for", st)


def receivers(R):
    n = 0
    for f in R.w.m.defined(True):
        if not list(f.calls("rbusEventData_updateFromMessage")):
            continue
        if f.dtypes[1:] and "rbusMessage" in f.dtypes[3:4] and len(f.dtypes) == 5:
            c = Receive(R.w, f, R, 1, 3)
            c.events = set()
            c.uses = bool(list(f.calls("rbusEventSubscription_find")))
            n += 1
            R.run(f, c)
    R.res.count("functions that receive events", n, 2)


# ---------------------------------------------------------------- which elements a subscription is for

class Enter(Ev):
    """a subscription is entered at each element it matches, and at no other
    typestate: (element looked at, subscription looked at, matches pending: (subscription, element, done so far), went below, entry excused, where the walk over the subscriptions is)"""

    def init_ts(self, fn):
        return (None, self.subparam, frozenset(), False, False, None)

    def ts_live(self, ts):
        return [x for x in ts[:2] if x] + [y for x in ts[2] for y in x[:2]] + ([ts[5]] if ts[5] and ts[5] is not True else [])

    def listwalk(self):
        return bool(list(self.f.calls("rtList_GetFront")))

    def match(self, sub, child):
        return ("op", "match", F(SUBS, "tokens", sub), child)

    def ts_prune(self, st):
        c, s, pend, went, ex, it = st.ts
        for k, f in st.facts.items():
            if k[0] == "op" and k[1] == "match" and nonzero(st, k):
                g = fld(k[2])
                if g and g[1:] == (SUBS, "tokens") and k[3] == c and g[0] == s and not any(x[:2] == (g[0], k[3]) for x in pend):
                    pend = pend | {(g[0], k[3], frozenset())}
        if s is not None and c is not None and not ex:
            ex = bool(st.isnull(F(SUBS, "tokens", s))) or zero(st, self.match(s, c))
        if c is not None and not went:
            ch, P = F(self.R.node, "child", c), F(self.R.node, "parent", c)
            t = F(self.R.node, "type", c)
            went = bool(st.isnull(ch) or st.const(("op", "strcmp",) + tuple(sorted((strip0(F(self.R.node, "name", c)), ("s", "{i}")), key=repr))) == 0
                        or self.listwalk() and nonzero(st, t))
        if it and it is not True and st.isnull(it):
            it = True
        return (c, s, pend, went, ex, it)

    def settle(self, st, i):
        st.ts = self.ts_prune(st)
        for sub, ch, done in st.ts[2]:
            for t in ("element", "instances"):
                if t not in done:
                    self.bad("C25.enter", i, t, "a subscription matches an element and is not entered in %s" % ("the element's list" if t == "element" else "its own list of instances"), st)

    def entry(self, st, i):
        """the entry looked at is done with"""
        self.settle(st, i)
        c, s, pend, went, ex, it = st.ts
        if not (ex or any(x[0] == s for x in pend) or st.isnull(s)):
            self.bad("C25.enter", i, "skipped", "a subscription is passed over without asking whether it is for the element", st)
        st.ts = (c, None, frozenset(), went, False, it)

    def leave(self, st, i):
        if self.listwalk() and st.ts[1] is not None and st.ts[1] != self.subparam:
            self.entry(st, i)
        self.settle(st, i)
        c, s, pend, went, ex, it = st.ts
        if c is not None:
            self.R.count("elements")
            t = F(self.R.node, "type", c)
            if self.listwalk():
                if it is not True and not zero(st, t):
                    self.bad("C25.enter", i, "end", "not every subscription was asked whether it is for an element", st)
            elif not (zero(st, t) or ex or any(x[1] == c for x in pend)):
                self.bad("C25.enter", i, "skipped", "an element is passed over without asking whether the subscription is for it", st)
            if not went:
                self.bad("C25.enter", i, "below", "what is below an element is passed over", st)
        st.ts = (None, s, frozenset(), False, False, None)

    def on_load(self, eng, st, i, addr):
        g = base(addr)[1] if base(addr) else None
        if g and g == (self.R.node, "nextSibling") and st.ts[0] is not None and base(addr)[0] == st.ts[0]:
            self.leave(st, i)
            x = Ev.on_load(self, eng, st, i, addr)
            v = eng.fresh(st, i)
            st.regs[i.id] = v
            st.ts = (v,) + st.ts[1:]
            return [st]
        if g and g == (self.R.node, "child") and st.ts[0] is None and base(addr)[0][0] == "p":
            x = Ev.on_load(self, eng, st, i, addr)
            st.ts = (st.regs[i.id],) + st.ts[1:]
            return x
        return Ev.on_load(self, eng, st, i, addr)

    def on_call(self, eng, st, i, args):
        n = i.callee_name
        self.mine = False
        if n == "TokenChain_match":
            g = fld(args[0])
            if not g or g[1:] != (SUBS, "tokens"):
                self.bad("C25.enter", i, n, "an element is compared with something else than what was subscribed to", st)
        elif n == "addElementSubscription":
            self.add(st, i, args[1], args[0], "element")
        elif n == "rtList_PushBack":
            g = fld(args[0])
            if g and g[1:] == (SUBS, "instances"):
                self.add(st, i, g[0], args[1], "instances")
        elif n == "rtListItem_GetNext" and st.ts[1] is not None:
            # the step may come before the entry is dealt with
            c, s, pend, went, ex, it = st.ts = self.ts_prune(st)
            if ex or st.isnull(s) or pend and all(len(x[2]) == 2 for x in pend):
                self.entry(st, i)
        elif n == "rtListItem_GetData" and st.ts[1] is not None and self.listwalk():
            self.entry(st, i)
        elif i.callee_full == self.f.name:
            if any(a == st.ts[0] for a in args) and st.ts[0] is not None:
                st.ts = st.ts[:3] + (True,) + st.ts[4:]
        return Ev.on_call(self, eng, st, i, args)

    def after_call(self, eng, st, i, args):
        Ev.after_call(self, eng, st, i, args)
        if i.callee_name in ("rtList_GetFront", "rtListItem_GetNext"):
            st.ts = st.ts[:5] + (out(st, i, 1),)
        elif i.callee_name == "rtListItem_GetData":
            st.ts = (st.ts[0], out(st, i, 1), frozenset(), st.ts[3], False, st.ts[5])
        return None

    def add(self, st, i, sub, child, what):
        self.R.count("elements")
        st.ts = c, s, pend, went, ex, it = self.ts_prune(st)
        for x in pend:
            if x[:2] == (sub, child):
                if what in x[2]:
                    self.bad("C25.enter", i, what, "a subscription is entered twice at one element", st)
                st.ts = (c, s, pend - {x} | {(sub, child, x[2] | {what})}, went, ex, it)
                return
        self.bad("C25.enter", i, what, "a subscription is entered at an element without knowing that it is for it", st)

    def on_ret(self, eng, st, i, val):
        self.settle(st, i)
        c = st.ts[0]
        if c is not None and st.isnull(c) is not True and not st.isnull(("p", self.nodeparam)):
            self.bad("C25.enter", i, "end", "the walk over the elements ends before its end", st)


class Match(Ev):
    """an element is matched by a subscription: each step of its name is the one that was named
    typestate: step the walk is at, whether it is missing; pairs (token, element) known to match in (kind, text)"""
    T = ("Token", "elementNode")

    def init_ts(self, fn):
        return (None, frozenset())

    def ts_live(self, ts):
        return [y for x in ts[1] for y in x[:2] if y] + ([x for x in ts[0][::2] if x] if ts[0] else [])

    def at(self, st):
        a = st.ts[0]
        if a is None:
            return None
        return (a[0], st.isnull(a[0]) if a[1] is None else a[1], a[2] or self.top(st))

    def top(self, st):
        """the walk up from the element is known to be at the root"""
        return next((k for k in sorted(st.facts, key=repr) if k[0] == "op" and fld(k) and fld(k)[1:] == (self.T[1], "parent") and st.isnull(k)), None)

    def learn(self, st):
        got = set(st.ts[1])
        tok, node = self.T
        E = self.w.m.enumvals
        for k, f in st.facts.items():
            if k[0] != "op" or len(k) != 4 or k[1] not in ("icmp eq", "strcmp"):
                continue
            yes = f[0] == f[1] == (1 if k[1] == "icmp eq" else 0)
            if not yes:
                continue
            for a, b in (k[2:], k[2:][::-1]):
                a, b = strip0(a), strip0(b)
                ga, gb = fld(a), fld(b)
                if not ga or not gb:
                    continue
                if k[1] == "icmp eq" and ga[1:] == (node, "type") and gb[1:] == (node, "type"):
                    t = fld(gb[0])
                    if t and t[1:] == (tok, "node"):
                        got.add((t[0], ga[0], "kind"))
                if k[1] == "strcmp" and gb[1:] == (tok, "text") and ga[1] == node and ga[2] in ("name", "alias"):
                    t = F(tok, "type", gb[0])
                    if ga[2] == "alias" and st.const(t) != E.get("TokenAlias", 1) and st.rng(t) != (E.get("TokenAlias", 1),) * 2:
                        continue
                    got.add((gb[0], ga[0], "text"))
        exact = {k: st.rng(k)[0] for k in st.facts if k[0] == "op" and fld(k) and fld(k)[1:] == (node, "type") and st.rng(k)[0] == st.rng(k)[1]}
        for k, a in exact.items():
            t = fld(fld(k)[0])
            if t and t[1:] == (tok, "node"):
                got |= {(t[0], fld(x)[0], "kind") for x, b in exact.items() if a == b and not contains(x, t[0])}
        for T in {x[0] for x in got}:
            t = F(tok, "type", T)
            w = E.get("TokenWildcard", 3)
            f = st.facts.get(t)
            if st.const(t) == w or st.rng(t) == (w, w) or f and {E.get("TokenAlias", 1), E.get("TokenInstNum", 2)} <= set(f[2]):
                got.add((T, None, "text"))
        return frozenset(x for x in got if not any(c24.old(y) for y in x[:2] if y))

    def ts_prune(self, st):
        return (self.at(st), self.learn(st))

    def on_load(self, eng, st, i, addr):
        b = base(addr)
        if b and b[1] == (self.T[0], "prev"):
            self.R.count("steps")
            T = b[0]
            k = self.learn(st)
            I = {x[1] for x in k if x[0] == T and x[2] == "kind"}
            J = {x[1] for x in k if x[0] == T and x[2] == "text"}
            if not I:
                self.bad("C25.match", i, "kind", "a step of a name is taken as matching without comparing what kind of element it is", st)
            elif not (None in J or I & J):
                self.bad("C25.match", i, "text", "a step of a name is taken as matching without comparing it with what was named", st)
            v = eng.fresh(st, i)
            st.regs[i.id] = v
            st.ts = ((v, None, None), frozenset(x for x in k if x[0] != T))
            return [st]
        if b and b[1] and b[1][1] == "last" and fld(b[0]) is None and st.ts[0] is None:
            v = eng.fresh(st, i)
            st.regs[i.id] = v
            st.ts = ((v, None, None), st.ts[1])
            return [st]
        return Ev.on_load(self, eng, st, i, addr)

    def on_ret(self, eng, st, i, val):
        if val is None or st.const(val) == 0:
            return
        a = self.at(st)
        if a is None or not a[1]:
            self.bad("C25.match", i, "rest", "a name is taken as matching although not all its steps were compared", st)
        if a is None or not a[2]:
            self.bad("C25.match", i, "root", "a name is taken as matching although the element may have further parents", st)


class Fill(Ev):
    """what is kept for a subscription is what was asked for"""

    def init_ts(self, fn):
        return None

    def on_call(self, eng, st, i, args):
        if i.callee_name == "strdup":
            x = self.eng_call(eng, st, i, args)
            for s in x:
                s.regs[i.id] = ("op", "dup", args[0], ZERO)
            return x
        return Ev.on_call(self, eng, st, i, args)

    def on_store(self, eng, st, i, addr, val):
        b, f = base(addr)
        if f and f[0] in (SUBS, self.R.sub) and root(addr)[0] != "p":
            for k, n in enumerate(self.f.argnames):
                if norm(n) == norm(f[1]):
                    self.R.count("fields")
                    v = val[2] if val[0] == "op" and val[1] == "dup" else val
                    if v != ("p", k) and not contains(v, ("p", k)) and v[0] != "j" and not zero(st, ("p", k)) and not eq(st, v, ("p", k)):
                        self.bad("C25.key", i, f[1], "the %s kept for a subscription is not the one it was made with" % f[1], st)
        return None


def entering(R):
    n = 0
    for f in R.w.m.defined(True):
        if list(f.calls("TokenChain_match")) and not f.inlinedAway:
            c = Enter(R.w, f, R)
            c.subparam = None if c.listwalk() else next((("p", k) for k, t in enumerate(f.dtypes[1:]) if t.rstrip("*") in (SUBS, SUBS[1:] + "_t")), None)
            c.nodeparam = next((k for k, t in enumerate(f.dtypes[1:]) if t.startswith(R.node)), 1)
            n += 1
            R.run(f, c)
        if f.dname == "TokenChain_match":
            n += 1
            R.run(f, Match(R.w, f, R))
        if any(norm(a) in ("listener", "eventname", "interval", "duration", "filter") for a in f.argnames or ()) and f.dtypes and (
                SUBS[1:] in f.dtypes[0] or f.dtypes[0].startswith("rbusEventSubscription")):
            R.run(f, Fill(R.w, f, R))
    R.res.count("functions that match subscriptions with elements", n, 3)


KEYS = ("rbusSubscriptions_addSubscription", "rbusSubscriptions_getSubscription", "rbusEventSubscription_find", "subscribeHandlerImpl")


def keys(R):
    """the keys of a subscription are handed on as what they are"""
    n = 0
    for f in R.w.m.defined(True):
        for i in f.calls(*KEYS):
            g = R.w.m.fn(i.callee_name)
            if g is None:
                continue
            n += 1
            for k, name in enumerate(g.argnames):
                a = ir.ap(f, i.ops[k])
                if a[0] == "arg" and norm(f.argnames[a[1]]) != norm(name) and norm(name) in [norm(x) for x in f.argnames]:
                    R.bad("C25.key", f, name, i, "the %s is handed on as %s" % (f.argnames[a[1]], name), None)
                c = ir.apclass(a).lstrip("*").split(".")
                if len(c) == 2 and c[0] in (SUBS, R.sub) and norm(c[1]) != norm(name) and norm(name) in [norm(x[0]) for x in R.w.m.structs.get(c[0], ())]:
                    R.bad("C25.key", f, name, i, "the %s of a subscription is handed on as %s" % (c[1], name), None)
    R.res.count("calls that hand on the keys of a subscription", n, 6)


# ---------------------------------------------------------------- looking up by a key

class Find(Ev):
    """typestate: (entry looked at, it is known not to be the one, what is known equal, where the walk is, the walk is over, an entry was looked at)"""

    def init_ts(self, fn):
        return (None, False, frozenset(), None, False, False)

    def ts_live(self, ts):
        return [x for x in (ts[0], ts[3]) if x]

    def matches(self, st, e):
        """(parameter, field) known equal; whether something is known unequal or missing"""
        got, miss = set(), bool(st.isnull(e))

        def pair(a, b):
            for x, y in ((a, b), (b, a)):
                if y[0] == "p" and contains(x, e) and not any(contains(x, ("p", k)) for k in range(12)):
                    g = x if x != e else None
                    name = lastfield(x)
                    if name is None:
                        t = fld(x)
                        name = t[1:] if t else None
                    return y[1], name if g is not None else ("", "entry")
            return None
        for k, f in list(st.facts.items()):
            if k[0] == "op" and len(k) == 4 and k[1] in ("strcmp", "fcmp", "icmp eq"):
                p = pair(k[2], k[3])
                if p is None:
                    continue
                t = k[1] == "icmp eq"
                if (f[0] == f[1] == 1) if t else (f[0] == f[1] == 0):
                    got.add(p)
                elif (f[0] == f[1] == 0) if t else nonzero(st, k):
                    miss = True
            elif k[0] == "op" and k[1] in ("icmp slt", "icmp ult", "icmp sgt", "icmp ugt") and pair(k[2], k[3]) and f[0] == f[1] == 1:
                miss = True
            elif k[0] == "op" and k[1].startswith("fld:") and contains(k, e) and f[0] == f[1] == 0 and not self.keyfield(st, k):
                miss = True         # an entry without what it is compared by
        return got, miss

    def keyfield(self, st, k):
        g = fld(k)
        return [x[1] for x in self.w.m.structs.get(g[1], ()) if x[0] == g[2]] != ["ptr"]

    def ts_prune(self, st):
        e, miss, got, item, over, seen = st.ts
        if e is not None:
            g, m = self.matches(st, e)
            got, miss = got | g, miss or m
        if item is not None and not over:
            over = bool(st.isnull(item)) if item[0] != "size" else self.end(st, item[1])
        return (e, miss, frozenset(got), item, over, seen)

    @staticmethod
    def end(st, size):
        if zero(st, size):
            return True
        for k, f in st.facts.items():
            if k[0] == "op" and k[1] in ("icmp ult", "icmp slt") and k[3] == size and f[0] == f[1] == 0:
                return True
            if k[0] == "op" and k[1] in ("icmp ule", "icmp sle") and k[2] == size and f[0] == f[1] == 1:
                return True
            if k == size and f[1] < INF:
                return True
        return False

    def ts_live(self, ts):
        return [x for x in (ts[0], ts[3][1] if ts[3] and ts[3][0] == "size" else ts[3]) if x]

    def done(self, st, i):
        e, miss, got, item, over, seen = st.ts = self.ts_prune(st)
        if e is not None and not miss:
            self.bad("C25.find", i, "skipped", "an entry is passed over although nothing says that it is not the one asked for", st)
        st.ts = (None, False, frozenset(), item, over, seen)

    def on_call(self, eng, st, i, args):
        if i.callee_name in ("rtVector_At", "rtListItem_GetData", "rtListItem_GetNext"):
            self.done(st, i)
        return Ev.on_call(self, eng, st, i, args)

    def after_call(self, eng, st, i, args):
        Ev.after_call(self, eng, st, i, args)
        n = i.callee_name
        if n in ("rtList_GetFront", "rtListItem_GetNext"):
            st.ts = st.ts[:3] + (out(st, i, 1), False) + st.ts[5:]
        elif n == "rtVector_Size":
            st.ts = st.ts[:3] + (("size", st.regs[i.id]), False) + st.ts[5:]
        elif n == "rtListItem_GetData":
            st.ts = (out(st, i, 1), False, frozenset()) + st.ts[3:5] + (True,)
        elif n == "rtVector_At":
            st.ts = (st.regs[i.id], False, frozenset()) + st.ts[3:5] + (True,)
        return None

    def on_ret(self, eng, st, i, val):
        e, miss, got, item, over, seen = self.ts_prune(st)
        R = self.R
        R.count("lookups")
        if val is None:
            return
        if st.isnull(val):
            if e is not None and not miss:
                self.bad("C25.find", i, "skipped", "an entry is passed over although nothing says that it is not the one asked for", st)
            elif seen and not over and not (e is not None and st.isnull(e)):
                self.bad("C25.find", i, "end", "the search ends before all entries were looked at", st)
            return
        if e is None or not contains(strip0(val), e) and strip0(val) != e:
            self.bad("C25.find", i, "result", "what is returned is not the entry that was looked at", st)
            return
        struct = self.f.dtypes[0].rstrip("*")
        for k, t in enumerate(self.f.dtypes[1:]):
            if k in self.container:
                continue
            mine = {n for p, n in got if p == k}
            if not mine:
                self.bad("C25.find", i, self.f.argnames[k], "the entry returned need not be the one asked for: its %s was not compared" % self.f.argnames[k], st)
                continue
            key = norm(self.f.argnames[k])
            for n in mine:
                if n is None or not n[0]:
                    continue
                same = [x[0] for x in self.w.m.structs.get(n[0], ()) if norm(x[0]) == key]
                if same and n[1] not in same:
                    self.bad("C25.find", i, self.f.argnames[k], "the %s asked for is compared with the entry's %s" % (self.f.argnames[k], n[1]), st)
                if any(p != k and x == n for p, x in got):
                    self.bad("C25.find", i, self.f.argnames[k], "two keys are compared with the entry's %s" % n[1], st)


def norm(n):
    n = n.lower()
    return n[2:] if n.startswith("m_") else n[1:] if n[:1] == "p" and len(n) > 6 else n


def finders(R):
    w = R.w
    n = 0
    for f in w.m.defined(True):
        if not f.dtypes or not str(f.dtypes[0]).endswith("*") or f.dtypes[0] == "*" or "/rtmessage/" in (f.file or ""):
            continue
        walks = list(f.calls("rtVector_At", "rtListItem_GetData"))
        if not walks or len(f.dtypes) < 2:
            continue
        if not all(t.endswith(("*", "_t")) or t in ("_Bool", "int", "rtVector", "rtList") for t in f.dtypes[1:]):
            continue
        c = Find(w, f, R)
        c.container = set()
        for i in f.calls("rtVector_At", "rtVector_Size", "rtList_GetFront"):
            r = ir.ap(f, i.ops[0])
            while r[0] in ("ld", "fld", "idx"):
                r = r[1]
            if r[0] == "arg":
                c.container.add(r[1])
        R.cur = f.name
        n += 1
        indexes(R, f)
        R.run(f, c)
    R.res.count("functions that look an entry up", n, 4)


def indexes(R, f):
    """a loop over a vector by index looks at every entry: it starts at one end, and ends past the other"""
    w = R.w
    ix = c19.Index(w, f, {})
    for head, body in f.loops().items():
        phis = {p.id: p for p in f.blocks[head].insts if p.op == "phi"}
        for at in f.calls("rtVector_At"):
            if at.block.id not in body:
                continue
            P, k = ix.linear(at.ops[1], {})
            if P not in phis:
                continue
            vec = ir.ap(f, at.ops[0])
            start, steps = [], set()
            for v, b in [(v, b) for b, v in phis[P].ops]:
                x, n = ix.linear(v, {})
                if b in body:
                    steps.add(n if x == P else None)
                else:
                    start.append((x, n))
            if len(steps) != 1 or not steps <= {1, -1}:
                continue
            step = steps.pop()
            R.n["loops over vectors"].add(at.where())
            size = lambda x: isinstance(x, int) and x in f.defs and f.defs[x].op == "call" and f.defs[x].callee_name == "rtVector_Size" and ir.ap(f, f.defs[x].ops[0]) == vec
            for x, n in start:
                if isinstance(x, list) and x[0] == "c" and step == 1 and ix.signed(x[1]) + n + k != 0:
                    R.bad("C25.walk", f, "first", at, "a loop over a vector does not start with the first entry", None)
                elif size(x) and step == -1 and n + k != -1:
                    R.bad("C25.walk", f, "last", at, "a loop over a vector from its end does not start with the last entry", None)
            if step != 1:
                continue
            for b in body:
                for c in f.blocks[b].insts:
                    if c.op != "icmp":
                        continue
                    for (x, y), less in ((c.ops, ("ult", "slt", "uge", "sge", "ne", "eq")), (c.ops[::-1], ("ugt", "sgt", "ule", "sle", "ne", "eq"))):
                        (x, n), (y, m) = ix.linear(x, {}), ix.linear(y, {})
                        if x == P and size(y) and c.pred in less and n - m != (k if f.dominates(c, at) else k + 1):
                            R.bad("C25.walk", f, "end", c, "a loop over a vector does not end with its last entry", None)


class Any:
    def __contains__(self, x):
        return True


class Rules:
    def __init__(self, w, res):
        self.w, self.m, self.res = w, w.m, res
        self.structs = Any()
        self.evtype, self.rawtype = ("rbusEvent_t", "type"), "rbusEventRawData_t"
        self.rawnames = ("rbusEventRawData_t*",)
        self.evnames = ("rbusEvent_t*",) + self.rawnames
        self.rec, self.sub, self.subint, self.node = "ValueChangeRecord", "_rbusEventSubscription", "_rbusEventSubscriptionInternal", "elementNode"
        self.valuechanged = w.m.enumvals.get("RBUS_EVENT_VALUE_CHANGED", 2)
        self.n = defaultdict(set)
        self.seen = set()
        self.cur = None

    def count(self, k):
        self.n[k].add(self.cur)

    def bad(self, rule, f, obj, i, text, st):
        key = (rule, f.dname, obj, i.where(), text)
        if key not in self.seen:
            self.seen.add(key)
            self.res.add(rule, f.dname, obj.replace(" ", "_"), i.where(), text, trail_text(st) if st is not None else "")

    def sendargs(self, c, st, i, args, e, ev=None):
        S = lambda n: F(SUBS, n, e)
        if i.callee_name == SENDERS[0]:
            want = ((1, S("eventName"), "event name"), (2, S("listener"), "listener"), (4, S("subscriptionId"), "subscription id"), (5, S("rawData"), "kind"))
            h = fld(args[0])
            if not h or h[2] != "componentName":
                c.bad("C25.args", i, i.callee_name, "an event is sent in the name of something else than the component", st)
        else:
            want = ((0, S("eventName"), "event name"), (1, S("listener"), "listener"), (2, F(self.rawtype, "rawData", ev), "data"),
                    (3, F(self.rawtype, "rawDataLen", ev), "length"), (4, S("subscriptionId"), "subscription id"), (5, S("rawData"), "kind"))
        for k, v, t in want:
            x = args[k]
            if x == v or eq(st, x, v):
                continue
            if t == "kind" and (st.const(x) == 0 and zero(st, v) or st.const(x) not in (None, 0) and nonzero(st, v)):
                continue
            c.bad("C25.args", i, i.callee_name, "an event is sent to a subscriber with another %s than the subscriber's own" % t, st)

    def run(self, f, c):
        self.cur = f.name
        e = Engine(self.w, f, c)
        e.run()
        return e


def run(w, res):
    R = Rules(w, res)
    publishers(R)
    senders(R)
    changes(R)
    receivers(R)
    entering(R)
    keys(R)
    finders(R)
    c25f.run(w, res)
    for k, v in sorted(R.n.items()):
        res.count(k, len(v))
    res.rule("C25.each/only/args: in every walk over the subscriptions of an element each one is either sent the event or known not to be due it (missing data, other kind, filter result unchanged), none is sent it "
             "without that being known, the walk goes on to its end, and what is sent is that subscription's own name, listener, id, filter, interval, duration, component and kind")
    res.rule("C25.change: a polled value is published exactly if the comparison with the one remembered says so, with both values, and then remembered; the poll goes on to the last value")
    res.rule("C25.receive: the subscription is looked up by everything the event carries, and its own handler is called with its own handle, the event and itself, unless there is none or it is being removed")
    res.rule("C25.enter/match/key: a subscription is entered, in both lists, at each element it was matched with and no other, no element or subscription is passed over unasked, a match compares every step of the name "
             "in kind and text up to the root, and the fields of a subscription are what it was made with")
    res.rule("C25.find/walk: a look-up returns an entry only after comparing each key with the entry's own field, passes one over only after a difference, and looks at every entry before giving up")
    res.assume("rtList/rtVector operations do what their names say (C19); rbusFilter_Apply, rbusValue_Compare and strcmp depend only on their arguments, and rbusValue_Compare orders values by its sign")
