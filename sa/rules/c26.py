"""Threads, mutexes and condition variables: started checked, stopped before what they use goes, initialised before use."""
from collections import defaultdict
import ir
from engine import *
from locks import Locks, contexts, cls, LOCK, WAIT

INIT = {"pthread_mutex_init", "pthread_cond_init"}
DESTROY = {"pthread_mutex_destroy", "pthread_cond_destroy"}
# thread function -> (cell of its id, where it may no longer run: destroyed mutexes/conditions or (destructor, ...), cells whose value 0 says it does not run)
THREADS = {
    "rtConnection_ReaderThread": ("_rtConnection.reader_thread", {"_rtConnection.mutex", "_rtConnection.callback_message_mutex", "_rtConnection.callback_message_cond"}, set()),
    "rtConnection_CallbackThread": ("_rtConnection.callback_thread", {"_rtConnection.mutex", "_rtConnection.callback_message_mutex", "_rtConnection.callback_message_cond"}, set()),
    "rbusValueChange_pollingThreadFunc": ("ValueChangeDetector_t.thread", {"ValueChangeDetector_t.mutex", "ValueChangeDetector_t.cond"}, {"ValueChangeDetector_t.running"}),
    "PublishingThreadFunc": ("sRecord.thread", {"sub_Free"}, {"sRecord.running"}),
    "AsyncSubscribeRetrier_threadFunc": ("AsyncSubscribeRetrier_t.threadId", {"AsyncSubscribeRetrier_t.mutexQueue", "AsyncSubscribeRetrier_t.condItemAdded"}, set()),
    "rbuscore_PrivateThreadFunc": ("_rbusServerDMLList.m_pid", set(), set()),
    "rtThread_WorkerThreadFunc": (None, set(), set()),
    "rbusMethod_InvokeAsyncThreadFunc": (None, set(), set()),
}
# what has to be called on every path before the handle's mutexes are destroyed (they are used by the threads these calls stop)
BEFORE = {
    "_rbusHandle.handle_subsMutex": ["rbusValueChange_CloseHandle", "rbusAsyncSubscribe_CloseHandle", ("rbusSubscriptions_destroy", "_rbusHandle.subscriptions"), "rbus_unregisterObj"],
    "_rbusHandle.handle_eventSubsMutex": ["rbusAsyncSubscribe_CloseHandle", "rbus_unregisterObj"],
    "rbuscore.c:g_mutex": ["rtConnection_Destroy"],
    "rbuscore.c:g_directServMutex": ["rtConnection_Destroy"],
    "rbuscore.c:g_directCliMutex": ["rtConnection_Destroy"],
}
GN = {}


def idcell(f, v):
    """cell the thread id is kept in"""
    p = ir.ap(f, v)
    if p[0] == "ld":
        p = p[1]
    return ir.apclass(p), p


class Life(Client):
    K = 6

    def __init__(self, w, f, rule, rep):
        self.w, self.f, self.R, self.rep = w, f, rule, rep
        self.init = set()
        self.sum = []
        cs = w.m.callers().get(f.name, ())
        self.passes_on = f.internal and cs and not any(f.name in r for r in (rule.taken,))

    def init_ts(self, fn):
        # joined/detached cells, functions called, zero-tested cells' values, inits of an object, destroyed, told to stop and not joined, globals given a new object
        return (frozenset(), frozenset(), (), frozenset(), frozenset(), frozenset(), frozenset())

    def ts_live(self, ts):
        return [v for _, v in ts[2]] + [x[0] for x in ts[3]] + [x[1] for x in ts[4]]

    def stopped(self, st, thr):
        cell, _, flags = THREADS[thr]
        if cell in st.ts[0]:
            return True
        return any(c in flags and st.const(v) == 0 for c, v in st.ts[2])

    def may_not_be_running(self, st):
        pass

    def on_load(self, eng, st, i, addr):
        lf = lastfield(addr)
        if not lf:
            return
        c = "%s.%s" % lf
        if c in self.R.flags:
            self.R.nflag += 1
            st.ts = st.ts[:2] + (tuple(x for x in st.ts[2] if x[0] != c) + ((c, ("pending", i.id)),),) + st.ts[3:]

    def settle(self, st):
        # the value of a flag read is known once the load has been executed
        if any(v[0] == "pending" for _, v in st.ts[2]):
            st.ts = st.ts[:2] + (tuple((c, st.regs.get(v[1], v) if v[0] == "pending" else v) for c, v in st.ts[2]),) + st.ts[3:]

    def on_branch(self, eng, st, i, cond):
        self.settle(st)

    def on_store(self, eng, st, i, addr, val):
        self.settle(st)
        lf = lastfield(addr)
        c = "%s.%s" % lf if lf else None
        if addr[0] == "g" and st.const(val) is None:
            st.ts = st.ts[:6] + (st.ts[6] | {("g*", addr[1])},)
        if c in self.R.flags:
            asked = any(c in fl for _, _, fl in THREADS.values())     # telling a thread to stop is not its end
            st.ts = st.ts[:2] + (tuple(x for x in st.ts[2] if x[0] != c) + (() if asked else ((c, val),)),) + st.ts[3:]
            if asked and root(addr)[0] != "al":
                p = {t for t, (_, _, fl) in THREADS.items() if c in fl and t != self.f.dname}
                if obj(self.f, i.ops[1], addr) not in st.ts[6]:
                    st.ts = st.ts[:5] + (st.ts[5] | p if st.const(val) == 0 else st.ts[5] - p, st.ts[6])
                    self.R.nstop += st.const(val) == 0

    def on_call(self, eng, st, i, args):
        n = i.callee_name
        R, f = self.R, self.f
        self.settle(st)
        j, called, fl, ini, des, stop, new = st.ts
        if n in ("pthread_join", "pthread_detach"):
            c, _ = idcell(f, i.ops[0])
            R.njoin += 1
            if n == "pthread_join":
                j = j | {c}        # another thread that is detached goes on running
                stop = frozenset(t for t in stop if THREADS[t][0] != c)
            else:
                for t, (cell, ends, _) in THREADS.items():
                    if cell == c and ends:
                        self.rep("C26.detach", i, t, "%s detaches the thread %s, which uses %s: nothing can wait for its end any more" % (f.dname, t, ", ".join(sorted(ends))), st)
            if n == "pthread_detach" and isinstance(i.ops[0], int):
                d = f.defs.get(ir.strip(f, i.ops[0]))
                if d is not None and d.op == "call" and d.callee_name == "pthread_self":
                    for t, (cell, _, _) in THREADS.items():
                        if f.dname == t:
                            j = j | {cell}
        elif n in INIT:
            ini = ini | {(root(args[0]), cls(args[0]))}
            des = frozenset(x for x in des if x[0] != cls(args[0]))
        elif n in DESTROY:
            c = cls(args[0])
            R.ndestroy += 1
            self.gone(st, i, c)
            for b in BEFORE.get(c, ()):
                name, cell = b if isinstance(b, tuple) else (b, None)
                if name in called:
                    continue
                if cell and self.nullfield(st, cell):
                    continue
                self.rep("C26.order", i, c, "%s destroys %s on a path without having called %s, whose threads use it" % (f.dname, c, name), st)
            if c != "?" and c != "local":
                des = des | {(c, root(args[0]))}
        elif n in LOCK or n in WAIT:
            c = cls(args[0])
            if (c, root(args[0])) in des:
                self.rep("C26.used", i, c, "%s uses %s after destroying it" % (f.dname, c), st)
        else:
            for a in i.ops:
                if isinstance(a, list) and a[0] == "f" and a[1] in R.destructors:
                    self.gone(st, i, a[1])
            if n in R.destructors:
                self.gone(st, i, n)
            for t in self.w.targets_known(f, i):
                called = called | {t}
                j = j | R.joins.get(t, frozenset())
                called = called | R.musts.get(t, frozenset())
                stop = (frozenset(x for x in stop if THREADS[x][0] not in R.joins.get(t, frozenset()))) | R.stops.get(t, frozenset())
                s = R.L.sum.get(t)
                if s and des:
                    from locks import translate
                    for x in s["acq"]:
                        if x[0] == "cls":
                            continue
                        v = translate(x, args)
                        if v is not None and (cls(v), root(v)) in des:
                            self.rep("C26.used", i, cls(v), "%s calls %s, which locks %s, after destroying it" % (f.dname, t, cls(v)), st)
        st.ts = (j, called, fl, ini, des, stop, new)
        return None

    def nullfield(self, st, cell):
        return any(c == cell and st.isnull(v) for c, v in st.ts[2])

    def gone(self, st, i, what):
        if what in self.f.name.split("$")[1:]:
            return        # a container's helper: decided where the destructor is handed over
        for t, (cell, ends, flags) in THREADS.items():
            if what in ends and not self.stopped(st, t):
                if self.f.dname in ends:
                    continue
                self.rep("C26.before", i, what, "%s destroys what %s uses (%s) without having joined it" % (self.f.dname, t, what), st)

    def on_ret(self, eng, st, i, val):
        self.sum.append((st.ts[0], st.ts[1], st.ts[5]))
        if st.ts[5] and not self.passes_on:
            for t in sorted(st.ts[5]):
                self.rep("C26.join", i, t, "%s tells the thread %s to stop and returns without having joined it: who finds its flag cleared takes it to have ended" % (self.f.dname, t), st)


def obj(f, opnd, val):
    """the object a mutex lies in: by its global pointer if that is how it is reached"""
    p = ir.ap(f, opnd)
    while p[0] in ("fld", "idx"):
        p = p[1]
    if p[0] == "ld" and p[1][0] == "glob":
        return ("g*", p[1][1])
    return root(val)


class Starts(Client):
    """in a function that creates an object with mutexes: all are initialised when a thread is started on it, and on return"""
    K = 4

    def __init__(self, f, want, rep):
        self.f, self.want, self.rep = f, want, rep

    def init_ts(self, fn):
        return (frozenset(), frozenset())     # (object, class) initialised; objects freed

    def ts_live(self, ts):
        return [x[0] for x in ts[0] if x[0][0] != 'g*']

    def on_call(self, eng, st, i, args):
        n = i.callee_name
        ini, fr = st.ts
        if n in INIT:
            st.ts = (ini | {(obj(self.f, i.ops[0], args[0]), cls(args[0]))}, fr)
        elif n in ("free", "rt_free_at") and args:
            st.ts = (frozenset(x for x in ini if x[0] != root(args[0])), fr | {root(args[0])})
        elif n == "pthread_create" or n in LOCK:
            c = cls(args[0])
            if n in LOCK and c in self.want and any(r == obj(self.f, i.ops[0], args[0]) for r, _ in ini) and (obj(self.f, i.ops[0], args[0]), c) not in ini:
                self.rep("C26.init", i, c, "%s locks %s before initialising it" % (self.f.dname, c), st)
            if n == "pthread_create":
                self.complete(st, i, "starts a thread")
        return None

    def complete(self, st, i, what):
        ini, fr = st.ts
        for o in {x[0] for x in ini}:
            miss = self.want - {c for r, c in ini if r == o}
            for c in sorted(miss):
                self.rep("C26.init", i, c, "%s %s on an object whose %s it has not initialised" % (self.f.dname, what, c), st)

    def on_ret(self, eng, st, i, val):
        if st.const(val) in (None, 0) if val is not None else True:
            self.complete(st, i, "returns")


class Last(Client):
    """a worker that has announced its end does not touch the pool again unless it is the one to destroy it"""
    K = 6

    def __init__(self, w, L, f, rep):
        self.w, self.L, self.f, self.rep = w, L, f, rep
        self.n = 0

    def init_ts(self, fn):
        return (False, False)    # announced, unlocked

    def on_store(self, eng, st, i, addr, val):
        if lastfield(addr) == ("_rtThreadPool", "threadCount"):
            d = self.f.defs.get(ir.strip(self.f, i.ops[0])) if isinstance(i.ops[0], int) else None
            if d is not None and d.op in ("add", "sub"):
                c = d.ops[1][1] if isinstance(d.ops[1], list) else 1
                if c < 0 or c >= 1 << 31 or d.op == "sub":
                    self.n += 1
                    st.ts = (True, False)

    def on_call(self, eng, st, i, args):
        n = i.callee_name
        a, u = st.ts
        if a and n == "pthread_mutex_unlock":
            st.ts = (a, True)
        elif a and u and (n in LOCK and cls(args[0]) == "_rtThreadPool.poolLock" or any(cls(x) == "_rtThreadPool.poolLock" or x == ("cls", "_rtThreadPool.poolLock")
                          for t in self.w.targets_known(self.f, i) for x in self.L.sum.get(t, {"acq": ()})["acq"])):
            self.rep("C26.last", i, "_rtThreadPool.poolLock", "%s locks the pool after it has announced its end: the pool may be destroyed already" % self.f.dname, st)
        return None


class R:
    pass


def run(w, res):
    m = w.m
    r = R()
    r.L = L = Locks(w)
    r.flags = {c for _, _, fl in THREADS.values() for c in fl} | {b[1] for l in BEFORE.values() for b in l if isinstance(b, tuple)}
    r.destructors = {e for _, ends, _ in THREADS.values() for e in ends if "." not in e}
    r.joins, r.musts, r.stops = {}, {}, {}
    r.nflag = r.ndestroy = r.njoin = r.nstop = 0
    r.taken = {a[1] for f in m.defined() for i in f.insts() for k, a in enumerate(i.ops) if isinstance(a, list) and a[0] == "f"}
    seen = set()

    def mk(f):
        def rep(rule, i, obj, text, st=None):
            k = (rule, f.dname, obj)
            if k not in seen:
                seen.add(k)
                res.add(rule, f.dname, obj, i.where(), text, trail_text(st) if st else "")
        return rep
    # which calls may matter: wrappers of joins and of the calls BEFORE asks for
    names = {b[0] if isinstance(b, tuple) else b for l in BEFORE.values() for b in l}
    rel = set()
    for f in m.defined():
        if f.inlinedAway:
            continue
        for i in f.calls():
            if i.callee_name in ("pthread_join", "pthread_detach") or i.callee_name in DESTROY or i.callee_name in names or i.callee_name in r.destructors \
                    or any(isinstance(a, list) and a[0] == "f" and a[1] in r.destructors for a in i.ops):
                rel.add(f.name)
        for i in f.insts():
            if i.op == "store" and ir.apclass(ir.ap(f, i.ops[1])) in r.flags:
                rel.add(f.name)
    ncreate = 0
    started = set()
    for f in m.defined():
        if f.inlinedAway:
            continue
        rep = mk(f)
        for i in f.calls("pthread_create"):
            ncreate += 1
            # the result is looked at
            us = used(f, i.id)
            if not any(u.op in ("icmp", "ret", "switch", "store", "call") for u in us):
                rep("C26.create", i, thread_of(i) or "thread", "%s does not look whether the thread %s could be started" % (f.dname, thread_of(i)))
            t = thread_of(i)
            if t not in THREADS:
                rep("C26.unknown", i, t or "thread", "%s starts a thread the check knows no life of" % f.dname)
                continue
            started.add(t)
    # fate: joined or detached somewhere
    fate = set()
    for f in m.defined():
        for i in f.calls("pthread_join", "pthread_detach"):
            fate.add(idcell(f, i.ops[0])[0])
            d = f.defs.get(ir.strip(f, i.ops[0])) if isinstance(i.ops[0], int) else None
            if d is not None and d.op == "call" and d.callee_name == "pthread_self":
                fate.add("self:" + f.dname)
            if d is not None and d.op == "load":
                b = ir.strip(f, d.ops[0])
                fate |= {"local:%s:%s" % (f.name, b)}
    for f in m.defined():
        if f.inlinedAway:
            continue
        detattr = {ir.strip(f, i.ops[0]) if not isinstance(i.ops[0], list) else None for i in f.calls("pthread_attr_setdetachstate") if i.ops[1][:2] == ["c", 1]}
        for i in f.calls("pthread_create"):
            t = thread_of(i)
            cell = THREADS.get(t, (None,))[0]
            b = ir.strip(f, i.ops[0])
            ok = (cell in fate or "self:%s" % t in fate or "local:%s:%s" % (f.name, b) in fate or ir.strip(f, i.ops[1]) in detattr) if t in THREADS else True
            if not ok:
                mk(f)("C26.fate", i, t, "the thread %s that %s starts is neither joined nor detached anywhere" % (t, f.dname))
    # path analysis, callees first, for what each function joins/calls for sure
    for name in w.bottom_up():
        f = m.funcs.get(name)
        if f is None or f.decl or f.inlinedAway:
            continue
        if name not in rel and not any(r.joins.get(i.callee_name) or r.stops.get(i.callee_name) for i in f.calls()):
            continue
        c = Life(w, f, r, mk(f))
        if Engine(w, f, c).run().over:
            raise RuntimeError("path budget exceeded in " + f.name)
        if c.sum:
            r.joins[name] = frozenset.intersection(*[s[0] for s in c.sum])
            r.musts[name] = frozenset.intersection(*[s[1] for s in c.sum]) & names
            r.stops[name] = frozenset.union(*[s[2] for s in c.sum]) if c.passes_on else frozenset()
    # initialisation
    ninit = 0
    want = defaultdict(set)
    for f in m.defined():
        if f.inlinedAway:
            continue
        for i in f.calls(*INIT):
            c = ir.apclass(ir.ap(f, i.ops[0]))
            ninit += 1
            if "." in c and ":" not in c and not c.endswith(".c"):
                want[c.split(".")[0]].add(c)
            elif "." in c and ir.ap(f, i.ops[0])[0] == "fld":
                want[c.split(".")[0]].add(c)
    inited = {c for s in want.values() for c in s}
    taken = {}
    for f, i, v, h in L.acq_sites:
        c = cls(v)
        if ":" not in c and "." in c:
            taken.setdefault(c, (f, i))
    for c, (f, i) in sorted(taken.items()):
        if c not in inited:
            mk(f)("C26.init", i, c, "%s is locked but never initialised" % c)
    for s, cs in sorted(want.items()):
        for f in m.defined():
            if f.inlinedAway or not any(ir.apclass(ir.ap(f, i.ops[0])) in cs for i in f.calls(*INIT)):
                continue
            if Engine(w, f, Starts(f, cs, mk(f))).run().over:
                raise RuntimeError("path budget exceeded in " + f.name)
    # globals initialised at run time: only with a mutex held, here or in every caller
    ctx, sites, roots = contexts(w, L)

    def under(n, seen):
        """every chain of callers holds some mutex"""
        if n in seen:
            return True
        if n in roots or not sites[n]:
            return False
        return all(h or under(c, seen | {n}) for c, h in sites[n])
    for f in m.defined():
        if f.inlinedAway:
            continue
        for i in f.calls("pthread_mutex_init"):
            p = ir.ap(f, i.ops[0])
            if p[0] == "glob":
                h = L.held_at.get((f.name, i.id)) or [frozenset()]
                if not all(x for x in h) and not under(f.name, set()):
                    mk(f)("C26.lazy", i, L.gname.get(p[1], p[1]), "%s initialises the global mutex %s at run time without any mutex held: two first calls race" % (f.dname, L.gname.get(p[1], p[1])))
    wf = m.fn("rtThread_WorkerThreadFunc")
    lc = Last(w, L, wf, mk(wf))
    Engine(w, wf, lc).run()
    if not lc.n:
        raise RuntimeError("the worker's announcement of its end was not found")
    res.count("threads_started", ncreate, 7)
    res.count("thread_functions", len(started), 7)
    res.count("runtime_initialisations", ninit, 15)
    res.count("destroy_visits", r.ndestroy, 15)
    res.count("join_visits", r.njoin, 7)
    res.count("stop_requests", r.nstop, 3)
    res.rule("C26.create: the result of every pthread_create is tested; C26.fate: every thread is joined or detached; C26.before: on every path to the destruction of what a thread uses, "
             "the thread was joined or its run flag is known to be zero; C26.join: a path that clears a run flag joins the thread before it returns; C26.detach: no thread that uses what is destroyed later is detached; C26.order: before a handle's or the library's mutexes are destroyed the calls that stop their users were made; "
             "C26.used: nothing locks a mutex after its destruction; C26.init: a structure's mutexes and conditions are all initialised before the first lock, thread start or return; "
             "C26.lazy: no unprotected run-time initialisation of a global mutex; C26.last: a worker that has announced its end does not lock the pool again")


def thread_of(i):
    a = i.ops[2]
    return a[1] if isinstance(a, list) and a[0] == "f" else None


def used(f, v, depth=0):
    out = []
    for u in f.uses().get(v, ()):
        out.append(u)
        if u.op in ir.CASTS or u.op == "phi" and depth < 3:
            out += used(f, u.id, depth + 1)
    return out
