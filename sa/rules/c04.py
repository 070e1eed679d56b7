"""Condition waits: the awaited state is re-evaluated after every wake-up; every change of it wakes the waiters."""
from collections import defaultdict
import ir
from engine import *
from locks import cls, WAIT, LOCK, UNLOCK

WAKE = {"pthread_cond_signal", "pthread_cond_broadcast"}
# condition variable -> (mutex, cells the awaited condition is made of, time): one of them is tested again before acting.
# time: "elapse" = the wait ends when its time has passed, so acting needs the time-out itself or the predicate;
#       "expire" = a time-out alone is a legitimate end of the wait; "no" = after a time-out too the predicate decides
CONDS = {
    "_rtThreadPool.taskCond": ("_rtThreadPool.poolLock", [{"_rtThreadPool.isRunning"}, {"_rtThreadPool.taskList"}], "no"),
    "_rtThreadPool.idleCond": ("_rtThreadPool.poolLock", [{"_rtThreadPool.busyThreadCount"}], "expire"),
    "_rtConnection.callback_message_cond": ("_rtConnection.callback_message_mutex",
                                            [{"_rtConnection.run_threads"}, {"_rtConnection.callback_message_list"}], "no"),
    "ValueChangeDetector_t.cond": ("ValueChangeDetector_t.mutex", [{"ValueChangeDetector_t.running"}], "elapse"),
    "sRecord.cond": ("sRecord.mutex", [{"sRecord.running"}], "elapse"),
    "AsyncSubscribeRetrier_t.condItemAdded": ("AsyncSubscribeRetrier_t.mutexQueue",
                                              [{"AsyncSubscribeRetrier_t.isRunning"}, {"AsyncSubscribeRetrier_t.items"}], "no"),
    "_rtSemaphore.c": ("_rtSemaphore.m", [{"_rtSemaphore.v"}], "expire"),
}
# cell -> (condition variable, changes that have to wake its waiters, a < b whose failure tells that nobody waits)
CHANGES = {
    "_rtThreadPool.isRunning": ("_rtThreadPool.taskCond", {"zero"}, None),
    "_rtThreadPool.taskList": ("_rtThreadPool.taskCond", {"push"}, ("_rtThreadPool.busyThreadCount", "_rtThreadPool.threadCount")),
    "_rtThreadPool.busyThreadCount": ("_rtThreadPool.idleCond", {"dec", "zero"}, None),
    "_rtConnection.callback_message_list": ("_rtConnection.callback_message_cond", {"push"}, None),
    "_rtConnection.run_threads": ("_rtConnection.callback_message_cond", {"zero"}, None),
    "ValueChangeDetector_t.running": ("ValueChangeDetector_t.cond", {"zero"}, None),
    "sRecord.running": ("sRecord.cond", {"zero"}, None),
    "AsyncSubscribeRetrier_t.isRunning": ("AsyncSubscribeRetrier_t.condItemAdded", {"zero"}, None),
    "AsyncSubscribeRetrier_t.items": ("AsyncSubscribeRetrier_t.condItemAdded", {"push"}, None),
    "_rtSemaphore.v": ("_rtSemaphore.c", {"inc"}, None),
}
# a change every waiter has to see: several threads can wait for it at once
EVERY = {"_rtThreadPool.isRunning"}
PUSH = {"rtList_PushBack", "rtList_PushFront", "rtList_InsertBefore", "rtList_InsertAfter", "rtVector_PushBack"}
POP = {"rtList_RemoveItem", "rtList_RemoveAllItems", "rtList_Destroy"}
BENIGN = ("llvm.", "rtLog", "rtTime_", "strerror", "clock_gettime", "gettimeofday", "time", "__errno_location", "snprintf",
          "rtList_Get", "rtListItem_Get", "rtVector_Size", "rtVector_At", "pthread_cond_", "pthread_mutex_", "gettid", "syscall", "rbusLog", "timeGetElapsed", "timeAddMS", "usleep", "nanosleep", "sched_yield")
CLOCK = {"clock_gettime", "gettimeofday", "time", "rtTime_Now", "rtTime_Elapsed", "timeGetElapsed", "rtTime_Later"}


def cellof(f, addr):
    p = ir.ap(f, addr)
    while p[0] == "idx":
        p = p[1]
    return "%s.%s" % (p[2], p[3]) if p[0] == "fld" else None


# condition -> thread functions that consume it (filled per run)
WAITERS = {}
# condition -> functions that start such a thread
STARTS = {}


class Deps:
    """what a branch condition was computed from: loads and calls, through locals handed to calls"""

    def __init__(self, f):
        self.f = f
        self.byloc = defaultdict(list)
        for i in f.insts():
            if i.op == "call":
                for a in i.ops:
                    b = self.base(a)
                    if b is not None:
                        self.byloc[b].append(i)
            elif i.op == "store":
                b = self.base(i.ops[1])
                if b is not None:
                    self.byloc[b].append(i)
        self.memo = {}

    def base(self, v):
        f = self.f
        while isinstance(v, int) and v in f.defs and (f.defs[v].op in ir.CASTS or f.defs[v].op == "getelementptr"):
            v = f.defs[v].ops[0]
        return v if isinstance(v, int) and v in f.defs and f.defs[v].op == "alloca" else None

    def of(self, v):
        if not isinstance(v, int):
            return frozenset()
        if v in self.memo:
            return self.memo[v]
        out, seen, work = set(), set(), [v]
        while work:
            x = work.pop()
            if not isinstance(x, int) or x in seen or x not in self.f.defs:
                continue
            seen.add(x)
            i = self.f.defs[x]
            if i.op in ("load", "call"):
                out.add(x)
            if i.op == "load":
                b = self.base(i.ops[0])
                if b is not None:
                    for c in self.byloc[b]:
                        if c.op == "call":
                            if c.id not in seen:
                                seen.add(c.id)
                                out.add(c.id)
                                work += [a for a in c.ops if self.base(a) != b]
                        else:
                            work.append(c.ops[0])
                    continue
            if i.op == "phi":
                work += [y for _, y in i.ops]
            else:
                work += list(i.ops)
        self.memo[v] = frozenset(out)
        return self.memo[v]


def refsets(w):
    """cells each function loads, through its callees"""
    own = {}
    for f in w.m.defined(True):
        s = set()
        for i in f.insts():
            if i.op == "load":
                c = cellof(f, i.ops[0])
                if c:
                    s.add(c)
        own[f.name] = s
    ch = True
    cg = {f.name: {i.callee_name for i in f.calls() if i.callee_name in own} for f in w.m.defined(True)}
    while ch:
        ch = False
        for n, cs in cg.items():
            for c in cs:
                if not own[c] <= own[n]:
                    own[n] |= own[c]
                    ch = True
    return own


class Wait(Client):
    """after a wait nothing is done before the awaited condition was tested again"""
    K = 8
    KHEAD = 4

    def __init__(self, w, f, refs, rep):
        self.w, self.f, self.refs, self.rep = w, f, refs, rep
        self.deps = Deps(f)
        self.nact = 0

    def init_ts(self, fn):
        return None     # or (cond, result, evaluations since, groups tested, time tested)

    def ts_live(self, ts):
        return [ts[1]] if ts else []

    def evaluates(self, cond, i):
        groups = CONDS[cond][1]
        if i.op == "load":
            c = cellof(self.f, i.ops[0])
            return {k for k, g in enumerate(groups) if c in g}
        n = i.callee_name
        if n in self.refs:
            return {k for k, g in enumerate(groups) if self.refs[n] & g}
        return set()

    def note(self, st, i):
        if st.ts and (self.evaluates(st.ts[0], i) or i.op == "call" and i.callee_name in CLOCK):
            t = st.ts
            st.ts = (t[0], t[1], t[2] | {i.id}, t[3], t[4])

    def on_load(self, eng, st, i, addr):
        self.note(st, i)

    def on_branch(self, eng, st, i, cond):
        t = st.ts
        if not t or not i.ops:
            return
        d = self.deps.of(i.ops[0]) if isinstance(i.ops[0], int) else ()
        g = set(t[3])
        timed = t[4]
        for x in d:
            if x in t[2]:
                g |= self.evaluates(t[0], self.f.defs[x])
                if self.f.defs[x].callee_name in CLOCK:
                    timed = True
        st.ts = (t[0], t[1], t[2], frozenset(g), timed)

    def timedout(self, st):
        t = st.ts
        if t[4]:
            return True
        lo, hi = st.rng(t[1])
        fc = st.facts.get(t[1])
        return lo > 0 or hi < 0 or bool(fc and 0 in fc[2])

    def act(self, st, i, what, leaving=False):
        t = st.ts
        if not t:
            return
        self.nact += 1
        mutex, groups, tm = CONDS[t[0]]
        done = t[3]
        ok = bool(done)
        if not ok and tm == "expire" and self.timedout(st):
            ok = True
        if not ok:
            self.rep("C04.recheck", i, t[0], "%s %s after a wait on %s without having tested %s again" % (
                self.f.dname, what, t[0], " or ".join(sorted(c for g in groups for c in g))), st)
        elif tm == "elapse" and not leaving and not self.timedout(st):
            self.rep("C04.spurious", i, t[0], "%s %s after a wait on %s ended neither by its time-out nor by its condition" % (self.f.dname, what, t[0]), st)
        st.ts = None

    def on_call(self, eng, st, i, args):
        n = i.callee_name
        if n in WAIT:
            return None
        if st.ts:
            pure = n and n.startswith(BENIGN)
            ev = self.evaluates(st.ts[0], i)
            self.note(st, i)
            if not pure and not ev:
                self.act(st, i, "calls %s" % (n or "a function"))
        return None

    def after_call(self, eng, st, i, args):
        if i.callee_name in WAIT:
            st.ts = (cls(args[0]), st.regs.get(i.id) or ("v", "wait", i.id), frozenset(), frozenset(), False)
        return None

    def on_store(self, eng, st, i, addr, val):
        if st.ts and lastfield(addr):
            self.act(st, i, "changes %s.%s" % lastfield(addr))

    def on_ret(self, eng, st, i, val):
        self.act(st, i, "returns", True)


class Change(Client):
    """a change of an awaited condition happens under the waiter's mutex and wakes it"""
    K = 6

    def __init__(self, f, rep):
        self.f, self.rep = f, rep
        self.n = 0

    def init_ts(self, fn):
        # mutex classes held, pending (cond, cell, made under the mutex), signalled in this critical section, conditions just created, guard values
        return (frozenset(), frozenset(), frozenset(), frozenset(), ())

    def ts_live(self, ts):
        return [x for g in ts[4] for x in g[2:]]

    def on_call(self, eng, st, i, args):
        n = i.callee_name
        held, pend, sig, young, gv = st.ts
        if n in LOCK:
            m = cls(args[0])
            pend = frozenset((c, x, u or CONDS[c][0] == m) for c, x, u in pend)
            st.ts = (held | {m}, pend, frozenset(), young, gv)
        elif n in UNLOCK:
            st.ts = (held - {cls(args[0])}, pend, frozenset(), young, gv)
        elif n in WAIT:
            st.ts = (held, frozenset(p for p in pend if p[0] == cls(args[0])), frozenset(), young, gv)
        elif n in WAKE:
            self.woken(st, i, cls(args[0]), "broadcast" in n)
        elif n == "pthread_cond_init":
            c = cls(args[0])
            st.ts = (held, frozenset(p for p in pend if p[0] != c), sig, young | {c}, gv)
        elif n == "pthread_create":
            # a thread started now tests the condition before it sleeps, so the item is not left to sleepers alone
            t = i.ops[2][1] if isinstance(i.ops[2], list) and i.ops[2][0] == "f" else None
            st.ts = (held, frozenset(p for p in pend if t not in WAITERS.get(p[0], ())), sig, frozenset(), gv)
        elif n and n not in PUSH and n not in POP and any(n in v for v in STARTS.values()):
            st.ts = (held, frozenset(p for p in pend if n not in STARTS.get(p[0], ())), sig, young, gv)
        elif n in PUSH or n in POP:
            d = self.f.defs.get(ir.strip(self.f, i.ops[0])) if isinstance(i.ops[0], int) else None
            if d is not None and d.op == "load":
                k = cellof(self.f, d.ops[0])
                if n in PUSH:
                    self.change(eng, st, i, k, "push")
                else:
                    st.ts = (held, frozenset(p for p in pend if p[1] != k), sig, young, gv)
        return None

    def woken(self, st, i, cond, every):
        held, pend, sig, young, gv = st.ts
        for c, x, u in pend:
            if c == cond and not u:
                self.rep("C04.unlocked", i, x, "%s changes %s without %s held, so a waiter that just tested it sleeps through the wake-up" % (self.f.dname, x, CONDS[c][0]), st)
        if CONDS.get(cond, ("",))[0] in held:
            sig = sig | {cond, (cond, "all")} if every else sig | {cond}
        st.ts = (held, frozenset(p for p in pend if p[0] != cond or p[1] in EVERY and not every), sig, young, gv)

    def change(self, eng, st, i, cell, kind):
        if cell not in CHANGES or kind not in CHANGES[cell][1]:
            return
        self.n += 1
        c = CHANGES[cell][0]
        held, pend, sig, young, gv = st.ts
        if ((c, "all") if cell in EVERY else c) in sig or c in young:
            return
        st.ts = (held, pend | {(c, cell, CONDS[c][0] in held)}, sig, young, gv)

    def on_store(self, eng, st, i, addr, val):
        lf = lastfield(addr)
        if not lf:
            return
        cell = "%s.%s" % lf
        if cell not in CHANGES:
            return
        if st.const(val) is not None:
            k = "zero" if st.const(val) == 0 else "set"
        else:
            k = "zero"           # may be zero
            d = self.f.defs.get(ir.strip(self.f, i.ops[0])) if isinstance(i.ops[0], int) else None
            if d is not None and d.op in ("add", "sub"):
                c = d.ops[1]
                v = c[1] if isinstance(c, list) and c[0] == "c" else None
                if v is not None:
                    if v >= 1 << 31:
                        v -= 1 << (64 if v >= 1 << 32 else 32)
                    k = "inc" if (v > 0) == (d.op == "add") else "dec"
        self.change(eng, st, i, cell, k)

    def on_branch(self, eng, st, i, cond):
        held, pend, sig, young, gv = st.ts
        d = self.f.defs.get(i.ops[0]) if i.ops and isinstance(i.ops[0], int) else None
        if not pend or d is None or d.op != "icmp":
            return
        for c, x, u in pend:
            g = CHANGES[x][2]
            if not g:
                continue
            side = []
            for o in d.ops[:2]:
                b = self.f.defs.get(ir.strip(self.f, o)) if isinstance(o, int) else None
                side.append(cellof(self.f, b.ops[0]) if b is not None and b.op == "load" else None)
            if side not in ([g[0], g[1]], [g[1], g[0]]):
                continue
            vals = [eng.val(st, o) for o in d.ops[:2]]
            if side[0] != g[0]:
                vals.reverse()
            st.ts = (held, pend, sig, young, tuple(sorted(set(gv) | {(c, x, vals[0], vals[1])}, key=repr)))

    def on_ret(self, eng, st, i, val):
        held, pend, sig, young, gv = st.ts
        for c, x, u in pend:
            if any(g[:2] == (c, x) and st.cond(("op", "icmp ult", g[2], g[3])) is False for g in gv):
                continue
            self.rep("C04.wake", i, x, "%s can return after changing %s without waking the threads that wait on %s" % (self.f.dname, x, c), st)


def run(w, res):
    m = w.m
    refs = refsets(w)
    seen = set()

    def mk(f):
        def rep(rule, i, obj, text, st):
            k = (rule, f.dname, obj)
            if k not in seen:
                seen.add(k)
                res.add(rule, f.dname, obj, i.where(), text, trail_text(st))
        return rep
    nw = 0
    pairs = defaultdict(set)
    waitf = [f for f in m.defined() if not f.inlinedAway and any(True for _ in f.calls(*WAIT))]
    for f in waitf:
        for i in f.calls(*WAIT):
            nw += 1
            c, mu = ir.apclass(ir.ap(f, i.ops[0])), ir.apclass(ir.ap(f, i.ops[1]))
            pairs[c].add(mu)
            if c not in CONDS:
                res.add("C04.unknown", f.dname, c, i.where(), "%s waits on %s, whose condition is not known" % (f.dname, c))
            elif mu != CONDS[c][0]:
                res.add("C04.mutex", f.dname, c, i.where(), "%s waits on %s with %s instead of %s" % (f.dname, c, mu, CONDS[c][0]))
            if f.name in w.thread_roots:
                WAITERS.setdefault(c, set()).add(f.name)
    for c, ts in WAITERS.items():
        STARTS[c] = {f.name for f in m.defined() for i in f.calls("pthread_create") if isinstance(i.ops[2], list) and i.ops[2][1] in ts}
    nact = 0
    for f in waitf:
        c = Wait(w, f, refs, mk(f))
        if Engine(w, f, c).run().over:
            raise RuntimeError("path budget exceeded in " + f.name)
        nact += c.nact
    # changes: functions that store to a condition's cells or push on its list
    changed = 0
    todo = []
    for f in m.defined():
        if f.inlinedAway:
            continue
        hit = any(i.op == "store" and cellof(f, i.ops[1]) in CHANGES for i in f.insts())
        for i in f.calls(*PUSH):
            d = f.defs.get(ir.strip(f, i.ops[0])) if isinstance(i.ops[0], int) else None
            hit = hit or d is not None and d.op == "load" and cellof(f, d.ops[0]) in CHANGES
        if hit:
            todo.append(f)
    for f in todo:
        c = Change(f, mk(f))
        if Engine(w, f, c).run().over:
            raise RuntimeError("path budget exceeded in " + f.name)
        changed += c.n
    res.count("wait_sites", nw, 8)
    res.count("condition_variables", len(pairs), 7)
    res.count("actions_after_waits", nact, 10)
    res.count("condition_changes", changed, 10)
    res.count("functions_changing_conditions", len(todo), 12)
    res.rule("C04.recheck: on every path from a wait to the first call with an effect, shared store or return, a branch depends on a read of the awaited cells made after the wait; "
             "C04.spurious: a periodic wait that ended without its time-out is not acted on; C04.mutex: a condition is always waited on with its one mutex; "
             "C04.wake: every change of an awaited cell is followed by a wake-up before the function returns (or is made in the critical section that wakes); "
             "C04.unlocked: the change, or a lock of the mutex after it, lies under the waiter's mutex before the wake-up")
    res.assume("which cells each condition variable stands for is listed in sa/rules/c04.py")
