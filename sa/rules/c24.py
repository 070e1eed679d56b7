"""The broker: who may change a route, who receives a message, what the tree of topics returns."""
from collections import defaultdict
import ir
from engine import *
from rules.c22 import strip0, base
from rules.c18 import fld

STR = ("strcmp", "strncmp", "strcasecmp", "strncasecmp", "memcmp")
ALLOCS = {"rt_calloc_at", "rt_malloc_at", "malloc", "calloc"}
FREES = {"free", "rt_free_at"}
GONE = ("rtRoutingTree_RemoveRoute", "rtRoutingTree_RemoveTopic")
ADVISORY = "_RTROUTED.ADVISORY"
CLIENT, SUB, ROUTE = "rtConnectedClient", "rtSubscription", "rtRouteEntry"
EXPR = 128
END = ("c", -77)
ROUTEFILE = "rtrouted.c"


def F(struct, field, obj):
    return ("op", "fld:%s.%s" % (struct, field), obj, ZERO)


def out(st, i, k):
    return ("op", "out%d" % k, st.regs[i.id], ZERO)


class Bus(Client):
    """fields of routes, subscriptions, clients and topics carry where they come from; strings compared are remembered"""
    STRUCTS = {ROUTE, SUB, CLIENT, "rtTreeRoute", "rtTreeTopic", "_rtRoutingTree", "rtMessageHeader"}
    MAXSTEPS = 400000
    K = 8
    JOINBEST = True

    def __init__(self, w, f, R):
        self.w, self.f, self.R = w, f, R
        self.left, self.cleared = {}, set()

    def on_load(self, eng, st, i, addr):
        b, f = base(addr)
        if f and f[0] in self.STRUCTS and root(addr)[0] != "al":
            m = st.mem.get(addr)
            if m is None or m[0] in ("undef", "j"):
                m = F(f[0], f[1], b)
                eng.store(st, addr, m)
            st.regs[i.id] = m
            return [st]
        s = strip0(addr)
        if i.ty == "i8" and s[0] == "op" and s[1].startswith("fld:") or i.ty == "i8" and s[0] == "p":
            st.regs[i.id] = ("op", "byte0", s, ZERO)
            return [st]
        return None

    def on_call(self, eng, st, i, args):
        if i.callee_name in STR:
            a, b = sorted((strip0(args[0]), strip0(args[1])), key=repr)
            n = st.const(args[2]) if len(args) > 2 else None
            if i.callee_name in ("strcmp", "strcasecmp") or i.callee_name in ("strncmp", "strncasecmp") and n is not None and n >= EXPR:
                st.regs[i.id] = ("op", "strcmp", a, b)
                return [st]
        if i.callee_name in ("rtString_Copy", "strcpy", "strncpy") and len(args) >= 2:
            x = self.eng_call(eng, st, i, args)
            eng.store(st, strip0(args[0]) if args[0][0] != "gep" else args[0], ("op", "copy", strip0(args[1]), ZERO))
            return x
        return None

    def eng_call(self, eng, st, i, args):
        r = eng.default_call(st, i, args)
        for s in r or ():
            if i.ty and i.id not in s.regs:
                s.regs[i.id] = eng.fresh(s, i)
        return r or []

    def outs(self, eng, st, i, args):
        """the results of the message readers and of the list functions that come back through a pointer"""
        n = i.callee_name
        if n in ("rtMessage_GetString", "rtMessage_GetStringItem", "rtMessage_GetInt32"):
            key = args[1][1] if args[1][0] == "s" else "?"
            eng.store(st, args[-1], ("op", "msg:" + key, st.regs[i.id], ZERO))
        elif n in ("rtList_GetFront", "rtListItem_GetNext", "rtListItem_GetData", "rtList_GetSize", "rtMessage_FromBytes"):
            eng.store(st, args[1] if n != "rtMessage_FromBytes" else args[0], out(st, i, 1))

    def after_call(self, eng, st, i, args):
        self.outs(eng, st, i, args)
        return None


def eq(st, a, b):
    """a == b is known"""
    if a == b or st.const(a) is not None and st.const(a) == st.const(b):
        return True
    k = ("op", "icmp eq") + tuple(sorted((a, b), key=repr))
    f = st.facts.get(k)
    return bool(f and f[0] == f[1] == 1)


def same_string(st, a, b):
    a, b = sorted((strip0(a), strip0(b)), key=repr)
    return a == b or st.const(("op", "strcmp", a, b)) == 0


# ---------------------------------------------------------------- who may change a route

class Owner(Bus):
    """typestate: fields of objects made on this path; clients whose routes were removed and that are not freed yet;
    routes made on this path whose registration failed"""

    def init_ts(self, fn):
        return (frozenset(), frozenset(), None, frozenset(), None, frozenset())

    def ts_live(self, ts):
        return [x[0] for x in ts[0]] + [x[2] for x in ts[0]] + [x for x in ts[1]] + (list(ts[2]) if ts[2] else []) + [x[0] for x in ts[3]] + (
            [x for x in ts[4][:2] if x] + list(ts[4][2] or ()) if ts[4] else []) + [y for x in ts[5] for y in x]

    def made(self, st, v):
        return ("fresh", v) in st.facts

    def field(self, st, obj, name):
        for o, n, v in st.ts[0]:
            if o == obj and n == name:
                return v
        return None

    def on_store(self, eng, st, i, addr, val):
        b, f = base(addr)
        if f and f in ((SUB, "client"), (SUB, "id"), (ROUTE, "subscription"), (ROUTE, "message_handler")):
            self.R.count("stores")
            if not self.made(st, b):
                self.R.bad("C24.owner", self.f, "%s.%s" % f, i, "a route or subscription that is registered is given to another client: %s.%s is written after it was made" % f, st)
            st.ts = (frozenset(x for x in st.ts[0] if x[:2] != (b, f[1])) | {(b, f[1], val)},) + st.ts[1:]
        return None

    def sub(self, st, route):
        return self.field(st, route, "subscription") or F(ROUTE, "subscription", route)

    def client(self, st, route):
        s = self.sub(st, route)
        return self.field(st, s, "client") or F(SUB, "client", s)

    def clientparams(self):
        return [k for k, t in enumerate(self.f.dtypes[1:]) if t == CLIENT + "*"]

    def handler(self):
        t = self.f.dtypes[1:]
        return bool(self.clientparams()) and "rtMessageHeader*" in t

    def remove(self, eng, st, i, route, expr=None):
        R = self.R
        R.count("removals")
        if self.made(st, route):
            if st.ts[2] is None or st.ts[2][0] != route or st.isnull(st.ts[2][1]) is not False:
                R.bad("C24.owner", self.f, i.callee_name, i, "a route is removed although nothing says that it could not be registered", st)
            return
        c = self.client(st, route)
        # the client it is known to belong to
        if self.handler():
            k = self.clientparams()[0]
            if not self.eq(st, c, ("p", k)):
                R.bad("C24.owner", self.f, i.callee_name, i, "a route is removed at the request of a client without knowing that it is that client's", st)
                return
            if expr is None:
                names = [v for v in self.strings(st) if same_string(st, F_expr(route), v) or self.eq(st, strip0(F_expr(route)), v)]
                if not names:
                    R.bad("C24.owner", self.f, i.callee_name, i, "a route of the client is removed that is not the one the client named", st)
            elif not (expr[0] == "op" and expr[1].startswith("msg:")):
                R.bad("C24.owner", self.f, i.callee_name, i, "what is removed is not the topic that the client named", st)
            return
        xs = [x for x in self.known_equal(st, c)]
        ok = False
        for x in xs:
            if x[0] == "p" and x[1] in self.clientparams():
                if self.f.name in R.dispatchers:
                    continue
                R.need[self.f.name].add(x[1])
                ok = True
            elif self.gone(st, x):
                ok = True
            elif self.f.name not in R.dispatchers:
                st.ts = (st.ts[0], st.ts[1] | {x}) + st.ts[2:]
                ok = True
        if not ok:
            R.bad("C24.owner", self.f, i.callee_name, i, "a route is removed that is not known to belong to a client that asked for it or is gone", st)

    def learned(self, st):
        """what was found equal about a route, for as long as it is the one looked at"""
        out = set(x for x in st.ts[5] if not any(old(y) for y in x))
        for k, f in st.facts.items():
            if k[0] != "op" or len(k) < 4:
                continue
            if k[1] == "icmp eq" and f[0] == f[1] == 1 or k[1] == "strcmp" and f[0] == f[1] == 0:
                for x in k[2:]:
                    g = fld(x)
                    if g and (g[1:] == (ROUTE, "expression") or g[1] == SUB and (fld(g[0]) or (0, 0, 0))[1:] == (ROUTE, "subscription")) and not any(old(y) for y in k[2:]):
                        out.add(tuple(k[2:]))
        return frozenset(out)

    def eq(self, st, a, b):
        return eq(st, a, b) or (a, b) in st.ts[5] or (b, a) in st.ts[5]

    def known_equal(self, st, c):
        for x in st.ts[5]:
            if c in x:
                yield x[0] if x[1] == c else x[1]
        for k, f in st.facts.items():
            if k[0] == "op" and k[1] == "icmp eq" and f[0] == f[1] == 1:
                if k[2] == c:
                    yield k[3]
                elif k[3] == c:
                    yield k[2]

    def gone(self, st, x):
        """the receiving client of a route, remembered because its socket was found closed"""
        return any(st.regs.get(k) == x for k in self.R.gone_values(self.f))

    def strings(self, st):
        for x in st.ts[5]:
            for a in x:
                if a[0] == "op" and a[1].startswith("msg:"):
                    yield a
        for k, f in st.facts.items():
            if k[0] == "op" and k[1] == "strcmp" and f[0] == f[1] == 0:
                for a in k[2:]:
                    if a[0] == "op" and a[1].startswith("msg:"):
                        yield a

    def on_call(self, eng, st, i, args):
        n = i.callee_name
        R = self.R
        if n in FREES and self.clientfree and self.isclient(st, i, args[0]):
            R.count("clients freed")
            x = self.walked(st)
            if x is None or x[0] != END and (x[0] is None or not self.over(st, x[0])) or x[2] is not None and args[0] not in x[2]:
                self.left.setdefault(src(i), (i, st.copy()))
            else:
                self.cleared.add(src(i))
        if n in FREES:
            have = {x[1] for x in st.ts[3] if x[0] == args[0]}
            if have != {"table", "tree"} and (have or self.isroute(st, args[0])):
                R.bad("C24.removal", self.f, "free", i, "a route is freed that is still in the %s" % (" and the ".join(sorted({"table", "tree"} - have))), st)
            st.ts = st.ts[:3] + (frozenset(x for x in st.ts[3] if x[0] != args[0]),) + st.ts[4:]
        if n and n.startswith("rtVector_RemoveItem") and len(args) > 1 and self.R.routes(self.f, i.ops[0]):
            st.ts = st.ts[:3] + (st.ts[3] | {(args[1], "table")},) + st.ts[4:]
            if st.ts[4] and st.ts[4][1] == args[1]:
                st.ts = st.ts[:4] + ((st.ts[4][0], None, st.ts[4][2]),) + st.ts[5:]
            self.R.count("removals")
        if n == "rtRoutingTree_RemoveRoute":
            st.ts = st.ts[:3] + (st.ts[3] | {(args[1], "tree")},) + st.ts[4:]
            self.remove(eng, st, i, args[1])
        elif n == "rtRoutingTree_RemoveTopic":
            self.remove(eng, st, i, args[2], strip0(args[1]))
        elif n in FREES and args[0] in st.ts[1]:
            st.ts = (st.ts[0], st.ts[1] - {args[0]}) + st.ts[2:]
        elif i.callee_full in R.need:
            for k in R.need[i.callee_full]:
                x = args[k]
                R.count("removals")
                if self.handler() and x == ("p", self.clientparams()[0]):
                    pass
                elif x[0] == "p" and x[1] in self.clientparams() and self.f.name not in R.dispatchers:
                    R.need[self.f.name].add(x[1])
                elif self.gone(st, x):
                    pass
                elif self.f.name not in R.dispatchers:
                    st.ts = (st.ts[0], st.ts[1] | {x}) + st.ts[2:]
                else:
                    R.bad("C24.owner", self.f, n, i, "the routes of a client are removed that is neither gone nor asked for it", st)
        return Bus.on_call(self, eng, st, i, args)

    def after_call(self, eng, st, i, args):
        n = i.callee_name
        if n == "rtRoutingTree_AddTopicRoute":
            self.add(eng, st, i, args)
        if self.clientfree and n in ("rtVector_Size", "rtVector_At") and self.R.routes(self.f, i.ops[0]):
            x = self.walked(st) or (None, None, None)
            if n == "rtVector_At":
                st.ts = st.ts[:4] + ((x[0], st.regs[i.id], x[2]),) + st.ts[5:]
            elif x[0] is None or x[0][1] != i.id:       # another walk
                st.ts = st.ts[:4] + ((st.regs[i.id], None, None),) + st.ts[5:]
            else:
                st.ts = st.ts[:4] + ((st.regs[i.id], None, x[2]),) + st.ts[5:]
        return Bus.after_call(self, eng, st, i, args)

    def add(self, eng, st, i, args):
        R, route = self.R, args[2]
        R.count("registrations")
        if self.made(st, route):
            st.ts = st.ts[:2] + ((route, st.regs[i.id]),) + st.ts[3:]
            if not self.handler():
                return
            s = self.sub(st, route)
            k = self.clientparams()[0]
            if not self.made(st, s) or self.field(st, s, "client") != ("p", k):
                R.bad("C24.owner", self.f, n_(i), i, "a route is registered for another client than the one that asked for it", st)
            x = self.field(st, s, "id")
            if x is None or not (x[0] == "c" or x[0] == "op" and x[1] == "msg:route_id"):
                R.bad("C24.owner", self.f, n_(i), i, "a route is registered with an id the client did not ask for", st)
            e = strip0(args[1])
            if not (e[0] == "op" and e[1].startswith("msg:")):
                R.bad("C24.owner", self.f, n_(i), i, "a route is registered for a topic the client did not ask for", st)
            return
        if not self.handler():
            return
        k = self.clientparams()[0]
        c = self.client(st, route)
        if not self.eq(st, c, ("p", k)):
            R.bad("C24.owner", self.f, n_(i), i, "a topic is added to a route without knowing that the route belongs to the client that asked for it", st)
        sid = F(SUB, "id", self.sub(st, route))
        if not any(x[0] == "op" and x[1] == "msg:route_id" for x in self.known_equal(st, sid)):
            R.bad("C24.owner", self.f, n_(i), i, "a topic is added to another route of the client than the one it named", st)
        if st.const(args[3]) in (0, None):
            R.bad("C24.owner", self.f, n_(i), i, "an element name can be registered although a live client already owns it", st)
        e = strip0(args[1])
        if not (e[0] == "op" and e[1].startswith("msg:")):
            R.bad("C24.owner", self.f, n_(i), i, "another topic is added than the client asked for", st)

    # a walk over the table of routes: (last size, route looked at, clients none of whose routes was passed over)
    def walked(self, st):
        if st.ts[4] is None:
            return None
        size, route, keep = st.ts[4]
        if route is not None:
            if (route, "table") in st.ts[3] or st.isnull(route) or st.isnull(F(ROUTE, "subscription", route)):
                pass
            else:
                c = self.client(st, route)
                ne = {b if a == c else a for k, f in st.facts.items() if k[0] == "op" and k[1] == "icmp eq" and f[0] == f[1] == 0 for a, b in [k[2:]] if c in (a, b)}
                keep = frozenset(ne) if keep is None else keep & ne
        return size, None, keep

    def over(self, st, size):
        """the walk ended because it was at the end"""
        for k, f in st.facts.items():
            if k[0] == "op" and k[1] in ("icmp ult", "icmp slt") and k[3] == size and f[0] == f[1] == 0:
                return True
            if k[0] == "op" and k[1] in ("icmp ule", "icmp sle") and k[2] == size and f[0] == f[1] == 1:
                return True
            if k == size and f[1] < INF:
                return True
        return False

    clientfree = False      # this run looks at what happens to the routes of a client before it is freed

    def isclient(self, st, i, v):
        if v[0] == "c" or self.made(st, v):
            return False
        if v[0] == "p":
            return v[1] in self.clientparams()
        return any(k[0] == "gep" and k[1] == v and k[2][0][:2] == ("f", CLIENT) for k in st.mem)

    def ts_prune(self, st):
        t = st.ts
        if t[4] and t[4][1] is not None:
            x = self.walked(st)
            if x[2] != frozenset():
                t = t[:4] + (x,) + t[5:]
        if t[4] and t[4][0] not in (None, END) and self.over(st, t[4][0]):
            t = t[:4] + ((END,) + t[4][1:],) + t[5:]
        return t[:5] + (self.learned(st),)

    def isroute(self, st, v):
        return any(k[0] == "gep" and k[1] == v and k[2][0][:2] == ("f", ROUTE) for k in st.mem)

    def on_ret(self, eng, st, i, val):
        for x in st.ts[3]:
            self.R.bad("C24.removal", self.f, x[1], i, "a route is taken out of the %s only" % x[1], st)
        for x in st.ts[1]:
            self.R.bad("C24.owner", self.f, "routes of a live client", i, "all routes of a client are removed although the client stays connected", st)


def src(i):
    return tuple(map(str, i.loc[0])) if i.loc else (i.fn.name, i.id)


def n_(i):
    return i.callee_name


def F_expr(route):
    return strip0(mkgep(route, (("f", ROUTE, "expression"),)))


class Rules:
    def __init__(self, w, res):
        self.w, self.m, self.res = w, w.m, res
        self.need = defaultdict(set)
        self.n = defaultdict(set)
        self.seen = set()
        self.cur = None
        self.mute = False
        self.dispatchers = {f.name for f in w.m.defined() if any(self.handlercall(i) for i in f.calls())}
        self._gone = {}

    def count(self, k):
        self.n[k].add(self.cur)

    def bad(self, rule, f, obj, i, text, st):
        key = (rule, f.dname, obj, i.where(), text)
        if self.mute:
            return
        if key not in self.seen:
            self.seen.add(key)
            self.res.add(rule, f.dname, obj, i.where(), text, trail_text(st) if st is not None else "")

    @staticmethod
    def handlercall(i):
        return i.op == "call" and i.callee_name is None and ir.apclass(ir.ap(i.fn, i.callee)) .lstrip("*") == "rtRouteEntry.message_handler"

    @staticmethod
    def broker(f):
        return bool(f.file) and f.file.endswith(ROUTEFILE)

    @staticmethod
    def routes(f, v):
        return ir.ap(f, v) == ("ld", ("glob", "gRoutes"))

    def gone_values(self, f):
        """what can only be null or the client whose socket was found closed when a message was forwarded to it"""
        if f.name not in self._gone:
            self._gone[f.name] = self.gone_ids(f)
        return self._gone[f.name]

    def gone_ids(self, f):
        calls = {i.id for i in f.calls() if self.handlercall(i)}
        edges = set()       # (block, successor) taken when forwarding failed for a closed socket
        for i in f.insts():
            if i.op == "icmp" and i.pred in ("eq", "ne"):
                a, b = (ir.strip(f, x) for x in i.ops)
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, int) and x in calls:
                        d = f.defs.get(y) if isinstance(y, int) else None
                        if d is not None and d.op == "call" and d.callee_name == "rtErrorFromErrno" and d.ops[0][0] == "c" and d.ops[0][1] == 9:
                            for u in f.insts():
                                if u.op == "br" and u.ops and u.ops[0] == i.id:
                                    edges.add((u.block.id, u.succ[0 if i.pred == "eq" else 1]))
        heads = {s for b, s in edges if len(set(f.blocks[s].preds)) <= 1}
        ids = set()
        for i in f.insts():
            if i.op == "load" and ir.apclass(ir.ap(f, i.id)).lstrip("*") == "rtSubscription.client" and any(h in f.doms()[i.block.id] for h in heads):
                ids.add(i.id)
        # greatest set of joins all of whose sources are such
        cand = ids | {i.id for i in f.insts() if i.op in ("phi", "select") and i.ty == "ptr"}
        while True:
            drop = set()
            for k in cand - ids:
                d = f.defs[k]
                src = [v for _, v in d.ops] if d.op == "phi" else d.ops[1:]
                if not all(v[0] == "n" if not isinstance(v, int) else v in cand for v in src):
                    drop.add(k)
            if not drop:
                break
            cand -= drop
        return cand


def run(w, res):
    m = w.m
    R = Rules(w, res)
    owners(w, res, R)
    deliveries(w, res, R)
    answers(w, res, R)
    tree(w, res, R)
    res.rule("C24.owner: on every path to adding, changing or removing a route (or a broker-side subscription) the route is known to be the asking client's, "
             "or the client is known gone or the route could not be registered; the topic, id and client registered are those of the request; an element name is added only when nobody owns it; "
             "C24.removal: a route is freed only after it left both table and tree, a client only after all its routes did; "
             "C24.delivery: every message received is looked up by its own topic, every route in what was found gets it and no one else, nobody passed over except the sender of a broadcast, "
             "header fields and payload forwarded are those received, a request nobody takes goes back to its sender marked so, the broker's answers go to the asker under its number as replies; "
             "C24.tree: a look-up follows the name one step per part and fails when a step fails, returns the routes of exactly the topic found (or, for a wildcard, of all below), a route is hung onto a topic once and taken off it whole, "
             "a topic is removed only when nothing hangs on it or below it")
    res.assume("rtList/rtVector operations do what their names say; socket writes either send whole frames or fail")


def owners(w, res, R):
    m = w.m
    sites = defaultdict(list)
    todo = []
    for f in m.defined():
        if f.file and f.file.endswith("rtRoutingTree.c"):
            continue
        for i in f.calls(*(GONE + ("rtRoutingTree_AddTopicRoute",))):
            sites[f.name].append(i)
        for i in f.calls():
            if (i.callee_name or "").startswith("rtVector_RemoveItem") and i.ops and R.routes(f, i.ops[0]):
                sites[f.name].append(i)
    todo = list(sites)
    done = {}
    while todo:
        n = todo.pop(0)
        f = m.funcs[n]
        before = {k: set(v) for k, v in R.need.items()}
        c = Owner(w, f, R)
        e = Engine(w, f, c)
        e.run()
        done[n] = e.over
        if e.over:
            R.bad("C24.owner", f, "too many paths", next(iter(f.insts())), "the paths of this function could not all be followed", None)
        for k in R.need:
            if set(R.need[k]) != before.get(k, set()):
                for c in w.m.callers().get(k, ()):
                    if c.fn.name not in todo:
                        todo.append(c.fn.name)
    res.count("functions that change routes", len(done), 4)
    # freeing a client: in the smallest function that does it, else in those it is part of
    ok, left = set(), {}
    R.mute = True
    for f in sorted((f for f in m.defined(True) if f.file and ROUTEFILE in f.file), key=lambda f: (not f.inlinedAway, len(list(f.insts())))):
        fr = [i for i in f.calls(*FREES) if src(i) not in ok]
        if not fr or not any(R.routes(f, i.ops[0]) for i in f.calls("rtVector_Size", "rtVector_At", "rtVector_RemoveItem") if i.ops) and not any(CLIENT + "*" in t for t in f.dtypes):
            continue
        c = Owner(w, f, R)
        c.clientfree = True
        e = Engine(w, f, c)
        e.run()
        for k, x in c.left.items():
            left[k] = (f, x[0], x[1])
        for k in c.cleared - set(c.left):
            ok.add(k)
            left.pop(k, None)
    R.mute = False
    for k, (f, i, st) in left.items():
        if k not in ok:
            R.bad("C24.removal", f, "client", i, "a client is freed although not all of its routes were removed", st)
    res.count("places where a client is freed", len(ok | set(left)), 1)


# ---------------------------------------------------------------- who gets a message

HDR = "rtMessageHeader"


def H(field, h):
    return F(HDR, field, h)


class Deliver(Bus):
    """typestate: (topic whose routes are walked, where the walk is, entry not served yet, what was encoded last)"""
    DEPTH = 8

    def init_ts(self, fn):
        return (None, None, None, None, None, None)

    def ts_live(self, ts):
        return [x for x in ts[:3] if x] + [x for x in (ts[3] or ()) + (ts[4] or ()) + (ts[5] or ()) if x]

    def on_store(self, eng, st, i, addr, val):
        b, f = base(addr)
        if f == (HDR, "payload_length") and b[0] == "p":
            st.ts = st.ts[:4] + ((b, val),) + st.ts[5:]
        c = self.clienthdr()
        if c is not None and b == c and f[0] == HDR and f[1] in ("flags", "payload_length"):
            x = st.ts[5] or (None, None, None)
            st.ts = st.ts[:5] + ((x[0], val, x[2]) if f[1] == "flags" else (x[0], x[1], val),)
        return None

    def clienthdr(self):
        """the header of the message a client sent"""
        p = self.param(CLIENT + "*")
        return mkgep(p[0], (("f", CLIENT, "header"),)) if p and self.R.cur in self.R.dispatchers else None

    def returned(self, eng, st, i, args):
        """a request nobody takes goes back to the one who asked, as an undeliverable reply without content"""
        h = self.clienthdr()
        if h is None or strip0(args[0]) != strip0(mkgep(h, (("f", HDR, "topic"),))):
            return
        self.R.count("requests sent back")
        fl = H("flags", h)
        x = st.ts[5] or (None, None, None)
        if strip0(args[1]) != strip0(mkgep(h, (("f", HDR, "reply_topic"),))):
            self.bad(i, "a request nobody takes is not returned to the one who asked", st, "return")
        asked = any(v[0] == "op" and v[1] == "and" and fl in v and ("c", 1) in v and (f[0] > 0 or f[1] < 0 or 0 in f[2]) for v, f in st.facts.items())
        if not asked:
            self.bad(i, "a message that is no request is returned to its sender", st, "return")
        st.ts = st.ts[:5] + ((ZERO, x[1], x[2]),)

    @staticmethod
    def bitsof(v, env):
        if v in env:
            return env[v]
        if v[0] == "c":
            return v[1] & 0xff
        if v[0] == "op" and v[1] in ("and", "or", "xor"):
            a, b = Deliver.bitsof(v[2], env), Deliver.bitsof(v[3], env)
            if a is None or b is None:
                return None
            return {"and": a & b, "or": a | b, "xor": a ^ b}[v[1]]
        return None

    def marked(self, st, i):
        """when the routes of the turned message are looked up, it carries its mark"""
        x = st.ts[5]
        if not x or x[0] is None:
            return
        fl = H("flags", self.clienthdr())
        for n in (1, 1 | 16, 0xff):
            g = self.bitsof(x[1], {fl: n}) if x[1] else None
            if g is None or g & 7 != 6:
                self.bad(i, "a request that is returned is not marked as an undeliverable reply", st, "return")
                break
        if x[2] != ZERO:
            self.bad(i, "a request that is returned still has the content of the request", st, "return")
        st.ts = st.ts[:5] + (None,)

    def param(self, t):
        return [("p", k) for k, x in enumerate(self.f.dtypes[1:]) if x == t]

    def entry(self, st):
        return F("rtTreeRoute", "route", st.ts[2])

    def finish(self, st, i):
        p = st.ts[2]
        if p is not None:
            if not self.excused(st):
                self.R.bad("C24.delivery", self.f, "skipped", i, "a client whose route matches is passed over", st)
            st.ts = st.ts[:2] + (None,) + st.ts[3:]

    def excused(self, st):
        p = st.ts[2]
        if p is None:
            return True
        r = self.entry(st)
        s = F(ROUTE, "subscription", r)
        c = F(SUB, "client", s)
        if st.isnull(p) or st.isnull(r):
            return True
        # the broker's own messages: only to clients, and not to the one they are about
        return self.R.cur not in self.R.dispatchers and bool(st.isnull(s) or any(eq(st, c, k) for k in self.param(CLIENT + "*")))

    def ts_prune(self, st):
        # decided here: what is known about the entry is forgotten where ways meet
        if st.ts[2] is not None and self.excused(st):
            return st.ts[:2] + (None,) + st.ts[3:]
        return st.ts

    def bad(self, i, text, st, obj=None):
        self.R.bad("C24.delivery", self.f, obj or i.callee_name or "message_handler", i, text, st)

    def on_call(self, eng, st, i, args):
        n = i.callee_name
        if n and n.startswith("llvm.memcpy") and self.param(HDR + "*") and strip0(args[1]) == self.param(HDR + "*")[0] and root(args[0])[0] == "al":
            x = self.eng_call(eng, st, i, args)
            g = strip0(args[1])
            for fd in self.w.m.structs[HDR]:
                v = H(fd[0], g) if not str(fd[1]).startswith("[") else ("op", "copy", strip0(mkgep(g, (("f", HDR, fd[0]),))), ZERO)
                eng.store(st, mkgep(args[0], (("f", HDR, fd[0]),)), v)
            return x
        if Rules.handlercall(i):
            self.handler(eng, st, i, args)
        elif n == "sendmsg":
            self.send(eng, st, i, args)
        elif n == "rtMessageHeader_Encode":
            h = args[0]
            vals = tuple(self.hval(st, h, x) for x in ("control_data", "header_length", "payload_length"))
            if self.param(SUB + "*") and self.param(HDR + "*"):
                self.copied(st, i, h)
            x = Bus.on_call(self, eng, st, i, args)
            st.ts = st.ts[:3] + ((h, args[1]) + vals,) + st.ts[4:]
            if x is None:
                x = self.eng_call(eng, st, i, args)
            return x
        elif n == "rtRoutingTree_GetTopicRoutes":
            self.marked(st, i)
        elif n in ("rtString_Copy", "strcpy", "strncpy"):
            self.returned(eng, st, i, args)
        elif n == "rtListItem_GetNext":
            self.mine = st.ts[0] is not None and eq(st, args[0], st.ts[1])
        elif n == "rtListItem_GetData" and st.ts[0] is not None:
            self.finish(st, i)
        return Bus.on_call(self, eng, st, i, args)

    @staticmethod
    def hval(st, h, name):
        if name == "payload_length" and st.ts[4] and st.ts[4][0] == h:
            return st.ts[4][1]
        v = st.mem.get(mkgep(h, (("f", HDR, name),)))
        return v if v is not None else H(name, h)

    def copied(self, st, i, h):
        """the header sent is the one received, except for the receiver's id"""
        g = self.param(HDR + "*")[0]
        for x in ("sequence_number", "flags", "topic_length", "reply_topic_length", "payload_length", "header_length"):
            if h != g and self.hval(st, h, x) != H(x, g):
                self.bad(i, "the %s of a message that is forwarded is not the one it came with" % x, st, x)
        for x in ("topic", "reply_topic"):
            v = None
            for k in st.mem:
                if k[0] == "gep" and root(k) == root(h) and lastfield(k) == (HDR, x):
                    v = st.mem[k]
            if h != g and v != ("op", "copy", strip0(mkgep(g, (("f", HDR, x),))), ZERO):
                self.bad(i, "the %s of a message that is forwarded is not the one it came with" % x, st, x)

    def after_call(self, eng, st, i, args):
        n = i.callee_name
        Bus.after_call(self, eng, st, i, args)
        if n == "rtRoutingTree_GetTopicRoutes":
            eng.store(st, args[2], ("op", "routes", strip0(args[1]), ZERO))
        elif n == "rtList_GetFront":
            l = args[0]
            if l[0] == "op" and l[1] == "routes":
                st.ts = (l[2], out(st, i, 1), None) + st.ts[3:]
                self.R.count("walks")
            else:
                st.ts = (None, None, None) + st.ts[3:]
        elif n == "rtListItem_GetNext" and self.mine:
            st.ts = (st.ts[0], out(st, i, 1)) + st.ts[2:]
        elif n == "rtListItem_GetData" and st.ts[0] is not None:
            st.ts = st.ts[:2] + (out(st, i, 1),) + st.ts[3:]
        elif n == "rtMessage_ToByteArray":
            eng.store(st, args[1], out(st, i, 1))
            eng.store(st, args[2], out(st, i, 2))
        return None

    def handler(self, eng, st, i, args):
        self.R.count("deliveries")
        g = fld(eng.val(st, i.callee))
        r = g[0] if g else None
        if r is None:
            return
        if st.ts[2] is not None or st.ts[0] is not None:
            if r != (self.entry(st) if st.ts[2] is not None else None):
                self.bad(i, "a message is given to a route that is not the matching one looked at", st)
        elif self.R.broker(self.f):
            self.bad(i, "a message is given to a route that was not looked up by the message's topic", st)
        p = self.param(CLIENT + "*")
        if not p:
            return
        c = p[0]
        h = mkgep(c, (("f", CLIENT, "header"),))
        if st.ts[0] is not None and st.ts[0] != strip0(mkgep(h, (("f", HDR, "topic"),))):
            self.bad(i, "the routes were looked up by something else than the message's topic", st)
        want = (c, h, mkgep(F(CLIENT, "read_buffer", c), (("i", H("header_length", h)),)), H("payload_length", h), F(ROUTE, "subscription", r))
        names = ("sender", "header", "payload", "length", "subscription")
        for x, y, z in zip(args, want, names):
            if x != y and not (z in ("payload", "length") and self.changed(x)):
                self.bad(i, "the handler of a route is given another %s than the message's" % z, st)
        st.ts = st.ts[:2] + (None,) + st.ts[3:]

    @staticmethod
    def changed(v):
        """not decided: no longer traceable to a field"""
        s = set()
        leaves(v, s)
        return any(x[0] in ("j", "undef") for x in s)

    def cells(self, st, a):
        """(index, field) -> value of an array of iovec"""
        out = {}
        pre = a[2] if a[0] == "gep" else ()
        base_ = sum(s[1][1] for s in pre if s[0] == "i" and s[1][0] == "c")
        for k, v in st.mem.items():
            if k[0] == "gep" and root(k) == root(a) and k[2][-1][:2] == ("f", "iovec"):
                n = sum(s[1][1] for s in k[2] if s[0] == "i" and s[1][0] == "c")
                out[(n - base_, k[2][-1][2])] = v
        return out

    def send(self, eng, st, i, args):
        self.R.count("deliveries")
        g = fld(args[0])
        if not g or g[1:] != (CLIENT, "fd"):
            self.bad(i, "a message is sent to a socket that is no client's", st)
            return
        c = g[0]
        s = fld(c)
        if s and s[1:] == (SUB, "client"):
            s = s[0]
        else:
            s = None
        subs = self.param(SUB + "*")
        if st.ts[0] is not None:
            want = F(ROUTE, "subscription", self.entry(st)) if st.ts[2] is not None else None
            if s is None or s != want:
                self.bad(i, "a message is sent to a client whose route does not match", st)
        elif subs:
            if s != subs[0]:
                self.bad(i, "a message is sent to another client than the route's", st)
        elif self.R.broker(self.f):
            self.bad(i, "a message is sent to a client that was not found by the message's topic", st)
        else:
            s = None
        if st.ts[0] is not None:
            hs = self.param(HDR + "*")
            if hs and st.ts[0] != strip0(mkgep(hs[0], (("f", HDR, "topic"),))):
                self.bad(i, "the routes were looked up by something else than the message's topic", st)
        hdr = args[1]
        iov = st.mem.get(mkgep(hdr, (("f", "msghdr", "msg_iov"),)))
        cells = self.cells(st, iov) if iov else {}
        buf = F(CLIENT, "send_buffer", c)
        e = st.ts[3]
        if e is None or e[1] != buf or cells.get((0, "iov_base")) != buf:
            self.bad(i, "what is sent is not the header that was written for this client", st)
        elif s is not None and e[2] != F(SUB, "id", s):
            self.bad(i, "the id sent with a message is not that of the receiver's route", st)
        elif self.param(HDR + "*"):
            if subs:
                if (cells.get((1, "iov_base")), cells.get((1, "iov_len"))) != (self.param("uint8_t*")[0], self.param("int")[0]):
                    self.bad(i, "what is forwarded is not the message's payload", st)
            else:
                b, l = cells.get((1, "iov_base")), cells.get((1, "iov_len"))
                if self.R.broker(self.f) and (b is None or l is None or b[:2] != ("op", "out1") or l != ("op", "out2") + b[2:] or e[4] != l):
                    self.bad(i, "what is sent is not the message", st)
        st.ts = st.ts[:2] + (None,) + st.ts[3:]

    def on_ret(self, eng, st, i, val):
        self.finish(st, i)
        if st.ts[1] is not None and st.isnull(st.ts[1]) is not True:
            self.bad(i, "delivery stops before the end of the list of matching routes", st, "walk")


class Reply(Bus):
    """an answer of the broker goes to the client that asked, as the reply to what it asked"""
    DEPTH = 8

    def init_ts(self, fn):
        return frozenset()

    def ts_live(self, ts):
        return [x[1] for x in ts] + [x[2] for x in ts]

    def params(self, t):
        return [("p", k) for k, x in enumerate(self.f.dtypes[1:]) if x == t]

    def on_store(self, eng, st, i, addr, val):
        b, f = base(addr)
        if f and f[0] == HDR:
            st.ts = frozenset(x for x in st.ts if x[:2] != (f[1], b)) | {(f[1], b, val)}
        return None

    def on_call(self, eng, st, i, args):
        n = i.callee_name
        if n in ("rtString_Copy", "strcpy", "strncpy"):
            b, f = base(args[0])
            if f and f[0] == HDR:
                st.ts = frozenset(x for x in st.ts if x[:2] != (f[1], b)) | {(f[1], b, ("op", "copy", strip0(args[1]), ZERO))}
        elif n == "rtMessageHeader_Init":
            st.ts = frozenset(x for x in st.ts if x[1] != args[0])
        elif i.callee_full in self.R.builders:
            k, j = self.R.builders[i.callee_full]
            st.ts = frozenset(x for x in st.ts if x[1] != args[k]) | {("answer", args[k], args[j])}
        elif i.callee_full in self.R.senders:
            self.R.count("answers")
            h = args[self.R.senders[i.callee_full]]
            hdr = self.params(HDR + "*")
            have = {x[0]: x[2] for x in st.ts if x[1] == h}
            t = have.get("topic")
            if t is not None and t[0] == "op" and t[1] == "copy" and t[2][0] in ("s", "g"):
                pass        # one of the broker's own topics
            elif hdr and self.params(CLIENT + "*"):
                self.check(i, h, hdr[0], have, st, have.get("answer") == hdr[0])
        return Bus.on_call(self, eng, st, i, args)

    def check(self, i, h, g, have, st, built=False):
        for x, want, what in (("topic", "reply_topic", "is not addressed to the one who asked"), ("sequence_number", "sequence_number", "does not carry the number of the request")):
            v = have.get(x)
            w = ("op", "copy", strip0(mkgep(g, (("f", HDR, want),))), ZERO) if x == "topic" else H(want, g)
            if v != w and not (built and v is None):
                self.R.bad("C24.delivery", self.f, "answer", i, "an answer of the broker " + what, st)
        v = have.get("flags")
        n = Deliver.bitsof(v, {}) if v is not None else None
        if (n is None or n & 3 != 2) and not (built and v is None):
            self.R.bad("C24.delivery", self.f, "answer", i, "an answer of the broker is not marked as a reply", st)

    def on_ret(self, eng, st, i, val):
        b = self.R.builders.get(self.f.name)
        if b:
            h = ("p", b[0])
            self.check(i, h, ("p", b[1]), {x[0]: x[2] for x in st.ts if x[1] == h}, st)


def answers(w, res, R):
    fs = [f for f in w.m.defined() if R.broker(f)]
    R.builders, R.senders = {}, {}
    for f in fs:
        hs = [k for k, t in enumerate(f.dtypes[1:]) if t == HDR + "*"]
        if len(hs) == 2:
            written = {ir.ap(f, i.ops[1])[1][1] for i in f.insts() if i.op == "store" and ir.ap(f, i.ops[1])[0] == "fld" and ir.ap(f, i.ops[1])[1][0] == "arg"}
            if len(written & set(hs)) == 1:
                k = (written & set(hs)).pop()
                R.builders[f.name] = (k, [x for x in hs if x != k][0])
        if len(hs) == 1 and "rtMessage" in f.dtypes[1:] and list(f.calls("sendmsg")):
            R.senders[f.name] = hs[0]
    n = 0
    for f in fs:
        if f.name in R.builders or f.name not in R.senders and any(c.callee_full in R.senders for c in f.calls()):
            n += 1
            R.cur = f.name
            e = Engine(w, f, Reply(w, f, R))
            e.run()
            if e.over:
                R.bad("C24.delivery", f, "too many paths", next(iter(f.insts())), "the paths of this function could not all be followed", None)
    res.count("functions that answer requests", n, 3)


def deliveries(w, res, R):
    n = 0
    for f in w.m.defined():
        if not f.file or "/rtmessage/" not in f.file or not R.broker(f):
            continue
        if any(Rules.handlercall(i) for i in f.calls()) or list(f.calls("sendmsg")):
            n += 1
            R.cur = f.name
            e = Engine(w, f, Deliver(w, f, R))
            e.run()
            if e.over:
                R.bad("C24.delivery", f, "too many paths", next(iter(f.insts())), "the paths of this function could not all be followed", None)
    res.count("functions that deliver messages", n, 3)


# ---------------------------------------------------------------- what the tree of topics returns
TOPIC, TROUTE = "rtTreeTopic", "rtTreeRoute"


def T(field, t):
    return F(TOPIC, field, t)


def byte0(st, v):
    return st.rng(("op", "byte0", strip0(v), ZERO))


def counter(w, name):
    """(functions that set this number, it is never negative)"""
    fs, ok = set(), True
    for f in w.m.defined(True):
        for i in f.insts():
            if i.op == "store" and ir.ap(f, i.ops[1]) == ("glob", name):
                fs.add(f.name)
                ok = ok and upwards(f, i.ops[0], set())
    return fs, ok


def upwards(f, v, seen):
    """counts up from a number that is not negative"""
    if not isinstance(v, int):
        return v[0] == "c" and v[1] >= 0
    if v in seen:
        return True
    seen.add(v)
    d = f.defs.get(v)
    if d is None:
        return False
    if d.op == "phi":
        return all(upwards(f, x, seen) for _, x in d.ops)
    if d.op == "add":
        return all(upwards(f, x, seen) for x in d.ops)
    return False


class Tree(Bus):
    def on_load(self, eng, st, i, addr):
        s = strip0(addr)
        if i.ty == "i32" and addr[0] == "g" and addr[1] in self.w.m.globals:
            pos = self.stable(addr[1], i)
            if pos is not None and st.mem.get(addr) is None:
                v = ("op", "glob", addr, ZERO)
                if pos and not st.assume_rel("sge", v, ZERO):
                    return []
                st.regs[i.id] = v
                return [st]
        if i.ty == "i8" and s[0] == "gep" and root(s)[0] == "p" and len(s[2]) == 1 and s[2][0][0] == "i":
            x = s[2][0][1]
            if x[0] == "op" and x[1] in ("add", "sub") and ("strlen", root(s)) == self.left.get(next((y for y in x[2:] if y[0] != "c"), None)):
                st.regs[i.id] = ("op", "last", root(s), ZERO)
                return [st]
        if lastfield(addr) == (TOPIC, "parent"):
            return None
        if i.ty == "i16" and addr[0] == "gep":
            for x in addr[2]:
                if x[0] == "i" and x[1][0] == "op" and x[1][1] == "byte0":
                    st.regs[i.id] = ("op", "ctype", x[1], ZERO)
                    return [st]
        return Bus.on_load(self, eng, st, i, addr)

    def after_call(self, eng, st, i, args):
        Bus.after_call(self, eng, st, i, args)
        if i.callee_name == "strlen":
            self.left[st.regs[i.id]] = ("strlen", args[0])
        return None

    def stable(self, name, i):
        """set by one call of this function, before this load; then whether it is never negative"""
        if name not in self.cleared:
            self.cleared.add(name)
            fs, pos = counter(self.w, name)
            calls = [c for c in self.f.calls() if c.callee_name and (c.callee_name in fs or ("g", name) in self.w.modset(c.callee_name))
                     and c.callee_name.startswith(("rt_", "rtL")) is False]
            self.left[name] = (calls[0] if len(calls) == 1 and self.f.name not in fs else None, pos)
        c, pos = self.left[name]
        return pos if c is not None and self.f.dominates(c, i) else None

    def bad(self, obj, i, text, st):
        self.R.bad("C24.tree", self.f, obj, i, text, st)


def isnt(st, v, n):
    lo, hi = st.rng(v)[:2]
    f = st.facts.get(v)
    return lo > n or hi < n or bool(f and n in f[2])


class Lookup(Tree):
    """a topic found below a parent is the one named, the row of a table, or new"""

    def init_ts(self, fn):
        return (None, False, False, frozenset(), False)

    def ts_live(self, ts):
        return [x for x in (ts[0],) + tuple(ts[3]) if x]

    def just(self, st):
        if st.ts[1] or st.ts[0] is None:
            return st.ts[1]
        name = T("name", st.ts[0])
        for k, t in enumerate(self.f.dtypes[1:]):
            if t != "char*":
                continue
            if same_string(st, name, ("p", k)):
                return True
            if byte0(st, name)[:2] == (123, 123) and self.row(st):
                return True
        return False

    def row(self, st):
        """the name asked for is known to be that of a row: a number, an alias or a wildcard"""
        if st.ts[4]:
            return True
        for k, t in enumerate(self.f.dtypes[1:]):
            if t != "char*":
                continue
            lo, hi = byte0(st, ("p", k))[:2]
            if lo == hi and lo in (42, 91) or 48 <= lo and hi <= 57:
                return True
            for v, f in st.facts.items():
                if v[0] == "op" and v[1] == "and" and ("op", "ctype", ("op", "byte0", ("p", k), ZERO), ZERO) in v and ("c", 2048) in v and (f[0] > 0 or f[1] < 0 or 0 in f[2]):
                    return True
        return False

    def ts_prune(self, st):
        return (st.ts[0], self.just(st)) + st.ts[2:4] + (self.row(st),)

    def on_store(self, eng, st, i, addr, val):
        if addr[0] == "p" and self.f.dtypes[1 + addr[1]] == "int*":
            c = st.const(val)
            st.ts = st.ts[:2] + (c is not None and c != 0 and self.errs(addr),) + st.ts[3:]
        return None

    def errs(self, addr):
        return addr == self.R.errparam(self.f)

    def after_call(self, eng, st, i, args):
        Tree.after_call(self, eng, st, i, args)
        if i.callee_name == "rtListItem_GetData":
            st.ts = (out(st, i, 1), False) + st.ts[2:]
        elif i.callee_name in ALLOCS:
            st.ts = st.ts[:3] + (st.ts[3] | {st.regs[i.id]},) + st.ts[4:]
        return None

    def on_ret(self, eng, st, i, val):
        self.R.count("lookups")
        if val is None or st.isnull(val) or val in st.ts[3] or st.ts[2]:
            return
        if not self.just(st) or val != st.ts[0]:
            self.bad("lookup", i, "a topic is returned whose name was not found equal to the one asked for", st)


class Routes(Tree):
    """what is returned for a topic: its routes, those below it when it ends in a dot, those of the row when it is a table"""

    def init_ts(self, fn):
        return (None, None, False)           # the last topic found, the name it was looked up by, not found

    def ts_live(self, ts):
        return [x for x in ts[:2] if x]

    def ts_prune(self, st):
        if st.ts[0] is not None and st.isnull(st.ts[0]):
            return st.ts[:2] + (True,)
        return st.ts

    def after_call(self, eng, st, i, args):
        Tree.after_call(self, eng, st, i, args)
        if self.R.islookup(i):
            st.ts = (st.regs[i.id], args[1], False)
        return None

    def on_store(self, eng, st, i, addr, val):
        if addr[0] != "p" or self.f.dtypes[1 + addr[1]] != "rtList*" or st.isnull(val):
            return None
        self.R.count("results of a look-up of routes")
        g = fld(val)
        if not g or g[1] != TOPIC or st.ts[2]:
            self.bad("routes", i, "the routes returned are not those of the topic asked for", st)
            return None
        last = ("op", "last", next((("p", k) for k, t in enumerate(self.f.dtypes[1:]) if t == "char*"), END), ZERO)
        dot, nodot = st.const(last) == 46, isnt(st, last, 46)
        if g[2] == "routeList2":
            if not dot:
                self.bad("routes", i, "the routes of the topics below are returned for a topic that does not end in a dot", st)
        elif g[2] == "routeList":
            if not nodot:
                self.bad("routes", i, "the routes of a topic itself are returned for one that ends in a dot", st)
            elif st.ts[1] == ("s", "{i}"):
                if g[0] != st.ts[0]:
                    self.bad("routes", i, "the routes returned for a table are not those of its row", st)
            elif st.const(T("isTable", g[0])) != 0:
                self.bad("routes", i, "the routes of a table are returned without looking at its row", st)
        else:
            self.bad("routes", i, "the routes returned are not those of the topic asked for", st)
        return None


class Register(Tree):
    """a route is hung onto a topic only when the look-up reported no error and no other owner is there"""

    def init_ts(self, fn):
        return (None, True, False, None)         # topic, error looked at, no other owner, list whose size was asked

    def ts_live(self, ts):
        return [ts[0]] if ts[0] else []

    def ts_prune(self, st):
        ts = st.ts
        if ts[0] is not None:
            t = ts[0]
            if not ts[1] and st.const(("op", "err", t, ZERO)) == 0:
                ts = (t, True) + ts[2:]
            if not ts[2] and self.free(st, t):
                ts = ts[:2] + (True, ts[3])
        return ts

    def free(self, st, t):
        if isnt(st, ("op", "created", t, ZERO), 0):
            return True
        l = T("routeList", t)
        if st.isnull(l) or st.const(("op", "size", l, ZERO)) == 0:
            return True
        for k, x in enumerate(self.f.dtypes[1:]):
            if x == "int" and st.const(("p", k)) == 0:
                return True
            if x == "char*" and same_string(st, ("p", k), ("s", ADVISORY)):
                return True
        return False

    def after_call(self, eng, st, i, args):
        Tree.after_call(self, eng, st, i, args)
        if self.R.islookup(i):
            r = st.regs[i.id]
            for n, k in (("created", self.R.createdparam(i)), ("err", self.R.errarg(i))):
                if k is not None and k < len(args) and not st.isnull(args[k]):
                    eng.store(st, args[k], ("op", n, r, ZERO))
            k = self.R.errarg(i)
            st.ts = (r, k is None, False, None)
        elif i.callee_name == "rtList_GetSize":
            eng.store(st, args[1], ("op", "size", args[0], ZERO))
        return None

    def on_call(self, eng, st, i, args):
        if i.callee_name in ("rtList_PushBack", "rtList_PushFront"):
            g = fld(args[0])
            if g and g[1:] == (TOPIC, "routeList"):
                self.R.count("routes hung onto a topic")
                ts = self.ts_prune(st)
                if not eq(st, g[0], ts[0] or END):
                    self.bad("routeList", i, "a route is hung onto a topic that is not the one looked up", st)
                elif not ts[1]:
                    self.bad("routeList", i, "a route is hung onto a topic although the look-up may have failed", st)
                elif not ts[2]:
                    self.bad("routeList", i, "a route is hung onto a topic that may have another owner", st)
        return Bus.on_call(self, eng, st, i, args)


def old(v):
    """of an earlier turn of a loop"""
    s = set()
    leaves(v, s)
    return any(x[0] == "v" and x[2] for x in s)


class Unhook(Tree):
    """every topic below is left without the route, and freed only when nothing hangs on it"""

    def init_ts(self, fn):
        # place in the walk, topic looked at, done with it: below, its routes, the routes below it; exact
        return (None, None, False, False, False, False, frozenset())

    def ts_live(self, ts):
        return [x for x in ts[:2] if x]

    def param(self, t):
        return [("p", k) for k, x in enumerate(self.f.dtypes[1:]) if x == t]

    def on_load(self, eng, st, i, addr):
        if lastfield(addr) == (TOPIC, "parent"):
            st.ts = st.ts[:6] + (frozenset(),)      # on to the next topic
        return Tree.on_load(self, eng, st, i, addr)

    def ts_prune(self, st):
        ts = st.ts
        c = ts[1]
        if c is not None:
            if st.isnull(T("routeList", c)):
                ts = ts[:3] + (True,) + ts[4:]
            if st.isnull(T("routeList2", c)):
                ts = ts[:4] + (True,) + ts[5:]
            if st.isnull(T("childList", c)):
                ts = ts[:2] + (True,) + ts[3:]
        if not ts[5]:
            for v, f in st.facts.items():
                if v[0] == "op" and v[1] == "strcmp" and f[:2] == (0, 0) and any((fld(x) or (0, 0, 0))[1:] == (TOPIC, "name") for x in v[2:]):
                    ts = ts[:5] + (True,) + ts[6:]
        for v, f in st.facts.items():
            g = fld(v)
            if f[:2] == (0, 0) and g and g[1] == TOPIC and not old(g[0]) and not any(x[:2] == (g[2], g[0]) for x in ts[6]):
                ts = self.counted(ts, g, 0)
        return ts

    @staticmethod
    def counted(ts, g, how):
        return ts[:6] + (frozenset(x for x in ts[6] if x[1] == g[0] and x[0] != g[2]) | {(g[2], g[0], how)},)

    def on_call(self, eng, st, i, args):
        n = i.callee_name
        if n == "rtListItem_GetNext":
            self.mine = st.ts[0] is not None and eq(st, args[0], st.ts[0])
        elif n == "rtListItem_GetData" and self.walks(st, args):
            self.finish(st, i)
        elif n in ("rtList_RemoveItem", "rtList_RemoveItemByCompare"):
            g = fld(args[0])
            if g and g[1] == TOPIC:
                if g[2] == "childList":
                    self.freed(st, i, args, g)
                else:
                    self.exact(st, i)
                    ok = eq(st, args[1], self.param("rtTreeRoute*")[0]) if self.param("rtTreeRoute*") else True
                    if not ok:
                        self.bad(g[2], i, "another route than the one given is taken from a topic", st)
                    elif st.ts[1] is not None and g[0] == st.ts[1]:
                        k = 3 if g[2] == "routeList" else 4
                        st.ts = st.ts[:k] + (True,) + st.ts[k + 1:]
        elif self.R.isremover(i):
            self.exact(st, i)
            k = self.R.topicarg(i)
            if st.ts[1] is not None and args[k] == st.ts[1]:
                st.ts = st.ts[:2] + (True,) + st.ts[3:]
        return Bus.on_call(self, eng, st, i, args)

    def exact(self, st, i):
        self.R.count("routes taken from topics")
        if self.R.named(self.f) and not self.ts_prune(st)[5]:
            self.bad("exact", i, "a route is taken from a topic whose name was not found equal to the one given", st)

    def walks(self, st, args):
        return st.ts[0] is not None and eq(st, args[0], st.ts[0])

    def freed(self, st, i, args, g):
        if i.callee_name == "rtList_RemoveItem":
            t = st.ts[1] if st.ts[0] is not None else None
        else:
            t = args[1]
        if t is None:
            return
        self.R.count("topics freed")
        for l in ("childList", "routeList"):
            v = T(l, t)
            if not (st.isnull(v) or st.const(("op", "size", v, ZERO)) == 0):
                self.bad("free", i, "a topic is freed although its %s was not found empty" % l, st)

    def finish(self, st, i):
        if st.ts[1] is not None:
            ts = self.ts_prune(st)
            for k, t in ((2, "the topics below it"), (3, "its routes"), (4, "the routes of the topics below it")):
                if not ts[k]:
                    self.bad("unhook", i, "a topic is passed over although the route may be in %s" % t, st)
            st.ts = (st.ts[0], None, False, False, False) + st.ts[5:]

    def after_call(self, eng, st, i, args):
        n = i.callee_name
        w = self.walks(st, args) if n == "rtListItem_GetData" else False
        Tree.after_call(self, eng, st, i, args)
        if n == "rtList_GetFront":
            g = fld(args[0])
            if g and g[1:] == (TOPIC, "childList") and self.R.isremoverfn(self.f):
                st.ts = (out(st, i, 1), None, False, False, False) + st.ts[5:]
        elif n == "rtListItem_GetNext" and self.mine:
            st.ts = (out(st, i, 1),) + st.ts[1:]
        elif n == "rtListItem_GetData" and self.R.isremoverfn(self.f) and st.ts[0] is not None:
            st.ts = (st.ts[0], out(st, i, 1), False, False, False) + st.ts[5:]
        elif n == "rtList_GetSize":
            eng.store(st, args[1], ("op", "size", args[0], ZERO))
            g = fld(args[0])
            if g and g[1] == TOPIC:
                st.ts = self.counted(st.ts, g, 1)
        return None

    def on_ret(self, eng, st, i, val):
        self.finish(st, i)
        if st.ts[0] is not None and st.isnull(st.ts[0]) is not True:
            self.bad("walk", i, "the search stops before the last topic", st)


class Shape:
    """the functions of the tree, by what they take and return"""

    def __init__(self, w, R):
        self.w = w
        self.fns = [f for f in w.m.defined() if f.file and f.file.endswith("rtRoutingTree.c")]
        self.look = {f.name: f for f in self.fns if f.dtypes[0] == TOPIC + "*" and TOPIC + "*" in f.dtypes[1:] and "char*" in f.dtypes[1:]}
        self.rem = {f.name: f for f in self.fns if f.dtypes[0] == "void" and f.dtypes[1:] and TOPIC + "*" in f.dtypes[1:] and TROUTE + "*" in f.dtypes[1:]
                    and list(f.calls("rtList_RemoveItemByCompare")) and any(c.callee_name == f.name for c in f.calls())}
        R.islookup = lambda i: i.callee_name in self.look
        R.isremover = lambda i: i.callee_name in self.rem
        R.isremoverfn = lambda f: f.name in self.rem
        R.topicarg = lambda i: self.rem[i.callee_name].dtypes[1:].index(TOPIC + "*")
        R.named = lambda f: "char*" in f.dtypes[1:]
        R.errparam = lambda f: ("p", self.roles(f)[1])
        R.errarg = lambda i: self.roles(self.look[i.callee_name])[1]
        R.createdparam = lambda i: self.roles(self.look[i.callee_name])[0]

    def roles(self, f):
        """(told that a topic was made, told that the name clashes) among the int out-parameters"""
        made = {s.block.id for s in f.insts() if s.op == "call" and s.callee_name in ALLOCS}
        cr = er = None
        for x in f.insts():
            if x.op == "store" and not isinstance(x.ops[0], int) and x.ops[0][0] == "c" and x.ops[0][1] != 0:
                a = ir.ap(f, x.ops[1])
                if a[0] != "arg" or f.dtypes[1 + a[1]] != "int*":
                    continue
                todo, seen = [x.block.id], set()
                while todo:
                    b = todo.pop()
                    if b not in seen:
                        seen.add(b)
                        todo += f.blocks[b].succs
                if seen & made:
                    cr = a[1]
                else:
                    er = a[1]
        return cr, er


def tree(w, res, R):
    S = Shape(w, R)
    res.count("look-ups of a topic by name", len(S.look), 1)
    res.count("functions that take a route out of the tree", len(S.rem), 1)

    def go(f, C):
        R.cur = f.name
        e = Engine(w, f, C(w, f, R))
        e.run()
        if e.over:
            R.bad("C24.tree", f, "too many paths", next(iter(f.insts())), "the paths of this function could not all be followed", None)
    for f in S.look.values():
        go(f, Lookup)
    n = [0, 0, 0]
    for f in S.fns:
        if any(c.callee_name in S.look for c in f.calls()):
            if "rtList*" in f.dtypes[1:]:
                n[0] += 1
                go(f, Routes)
            if list(f.calls("rtList_PushBack", "rtList_PushFront")) and "int" in f.dtypes[1:]:
                n[1] += 1
                go(f, Register)
        if f.name in S.rem or any(c.callee_name in S.rem for c in f.calls()):
            n[2] += 1
            go(f, Unhook)
    res.count("functions that return the routes of a topic", n[0], 1)
    res.count("functions that hang a route onto a topic", n[1], 1)
    res.count("functions that remove routes from topics", n[2], 2)
