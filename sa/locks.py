"""Lock discipline: balance (C01), order (C02), and the per-instruction locksets used by C03/C04/C23."""
from collections import defaultdict
import ir
from engine import *
from ir import ap, apstr

LOCK = {"pthread_mutex_lock", "pthread_spin_lock", "pthread_rwlock_wrlock", "pthread_rwlock_rdlock"}
UNLOCK = {"pthread_mutex_unlock", "pthread_spin_unlock", "pthread_rwlock_unlock"}
TRY = {"pthread_mutex_trylock"}
TIMED = {"pthread_mutex_timedlock"}
WAIT = {"pthread_cond_wait", "pthread_cond_timedwait", "pthread_cond_clockwait"}


GNAME = {}


def cls(v):
    """lock class of a lock address value"""
    if v[0] == "g":
        return GNAME.get(v[1], v[1])
    if v[0] == "gep":
        lf = lastfield(v)
        if lf:
            return "%s.%s" % lf
        return cls(v[1])
    if v[0] == "al":
        return "local"
    if v[0] in ("v", "j", "p"):
        return "?"
    return "?"


def lock_cls_static(fn, opnd):
    """class of the lock operand, resolving pointers kept in fields/globals to the mutex they point to"""
    p = ap(fn, opnd)
    return ir.apclass(p)


class Locks:
    """runs the lock client over every function, callees first"""

    def __init__(self, w):
        self.w = w
        self.reports = []         # (rule, function, lock, where, text, trail)
        self.sum = {}             # fn -> dict(delta=..., needs=..., acq=...)
        self.held_at = defaultdict(list)   # (fn, inst id) -> [frozenset of held lock classes]   (local: relative to entry)
        self.acq_sites = []       # (fn, inst, cls, held classes)
        self.call_sites = []      # (fn, inst, callee names/None, held)
        self.nfn = 0
        self.nacq = 0
        self.nrel = 0
        self.nexit = 0
        self.over = []
        self.acc = {}             # (fn, inst id) -> (inst, location class, frozenset of lock classes held on every visit, fresh object)
        self.gname = {}
        for g in w.m.globals.values():
            self.gname[g["name"]] = "%s:%s" % ((g.get("file") or "?").split("/")[-1], g.get("dname") or g["name"])
        GNAME.update(self.gname)
        self.recursive = self.find_recursive()
        order = w.bottom_up()
        for self.rounds in range(1, 7):
            # recursion: repeat until the summaries no longer change
            old = {k: (v["eff"], v["needs"], v["acq"]) for k, v in self.sum.items()}
            self.reports = []
            self.held_at = defaultdict(list)
            self.acq_sites = []
            self.call_sites = []
            self.nfn = self.nacq = self.nrel = self.nexit = 0
            self.over = []
            self.acc = {}
            for n in order:
                self.analyse(w.m.funcs[n])
            # what is part of its callers altogether is judged there
            away = {f.name for f in w.m.defined(True) if f.inlinedAway}
            self.reports = [r for r in self.reports if r[1] not in away]
            self.over = [n for n in self.over if n not in away]
            if old == {k: (v["eff"], v["needs"], v["acq"]) for k, v in self.sum.items()}:
                break

    def find_recursive(self):
        rec = set()
        for f in self.w.m.defined(True):
            types = [(str(ir.strip(f, i.ops[0])), i) for i in f.calls("pthread_mutexattr_settype") if i.ops[1][0] == "c"]
            for i in f.calls("pthread_mutex_init"):
                a = str(ir.strip(f, i.ops[1]))
                dom = [t for k, t in types if k == a and f.dominates(t, i)]
                last = None
                for t in dom:
                    if last is None or f.dominates(last, t):
                        last = t
                if last is not None and last.ops[1][1] == 1:
                    p = ap(f, i.ops[0])
                    rec.add(GNAME.get(p[1], p[1]) if p[0] == "glob" else ir.apclass(p))
        return rec

    def analyse(self, f):
        self.nfn += 1
        has = any(i.callee_name in LOCK | UNLOCK | TRY | TIMED for i in f.calls())
        lockless = not has and not any((t in self.sum and (self.sum[t]["eff"] or self.sum[t]["acq"] or self.sum[t]["needs"])) for i in f.calls() for t in self.w.targets_known(f, i))
        c = LockClient(self, f)
        if lockless and not any(True for i in f.calls()):
            self.sum[f.name] = dict(eff=None, needs=frozenset(), acq=frozenset(), deltas={frozenset()})
            return
        e = Engine(self.w, f, c)
        c.eng = e
        if lockless:
            # nothing taken here: every call happens with nothing (locally) held
            for i in f.calls():
                self.note_call(f, i, frozenset(), c)
            for i in f.insts():
                if i.op == "call":
                    for a, k in arg_cells(f, i):
                        self.acc[(f.name, i.id, a)] = (i, k, frozenset(), False)
                if i.op in ("load", "store", "atomicrmw", "cmpxchg"):
                    k = static_cell(f, i)
                    if k:
                        self.acc[(f.name, i.id)] = (i, k, frozenset(), fresh_root(f, i.ops[1] if i.op == "store" else i.ops[0]))
            c.exits.append((frozenset(), None, None, None))
        else:
            e.run()
            if e.over:
                self.over.append(f.name)
        deltas = set(d for d, _, _, _ in c.exits)
        self.nexit += len(c.exits)
        eff = None
        nz = [d for d in deltas if d]
        if len(deltas) > 1:
            # not the same effect on every exit
            for d, i, st, val in c.exits:
                if d and not any(r[0] == "C01.exit" and r[1] == f.name and r[2] == str(sorted(cls(x) for x, _ in d)) for r in self.reports):
                    bad = sorted("%s%s" % (cls(x), "" if n > 0 else " (released, was the caller's)") for x, n in d)
                    self.reports.append(("C01.exit", f.name, str(sorted(cls(x) for x, _ in d)), i.where(),
                                         "%s returns with %s held on one path and not on another" % (f.dname, ", ".join(bad)), trail_text(st)))
        elif nz:
            eff = nz[0]
        self.sum[f.name] = dict(eff=eff, needs=frozenset(c.needs), acq=frozenset(c.acq), deltas=deltas)
        callers = self.w.m.callers().get(f.name)
        rootlike = f.addrTaken or not callers
        if rootlike and not f.inlinedAway:
            for d in deltas:
                for x, n in d:
                    if n > 0 or True:
                        key = ("C01.root", f.name, cls(x))
                        if len(deltas) == 1 and not any(r[:3] == key for r in self.reports):
                            self.reports.append(key + (f.file, "%s is called from outside and %s %s" % (f.dname, "leaves held" if n > 0 else "releases without holding", cls(x)), ""))
            for x in c.needs:
                if not any(x == y for d in deltas for y, n in d):
                    self.reports.append(("C01.root", f.name, cls(x), f.file, "%s is called from outside but unlocks %s that it has not locked" % (f.dname, cls(x)), ""))

    def note_call(self, f, i, held, c):
        ts = self.w.targets_known(f, i)
        self.call_sites.append((f, i, ts, held))


def static_cell(f, i):
    p = ap(f, i.ops[1] if i.op == "store" else i.ops[0])
    while p[0] == "idx":
        p = p[1]
    if p[0] == "fld":
        return "%s.%s" % (p[2], p[3])
    if p[0] == "glob":
        return GNAME.get(p[1], p[1])
    return None


def arg_cells(f, i):
    """shared cells whose value (a container, usually) is handed to this call"""
    if not hasattr(i.fn, "_argc"):
        i.fn._argc = {}
    r = i.fn._argc.get(i.id)
    if r is None:
        r = []
        for a, v in enumerate(i.ops):
            if not isinstance(v, int):
                continue
            p = ap(f, v)
            if p[0] != "ld":
                continue
            p = p[1]
            while p[0] == "idx":
                p = p[1]
            if p[0] == "fld":
                r.append((a, "%s.%s" % (p[2], p[3])))
            elif p[0] == "glob":
                r.append((a, GNAME.get(p[1], p[1])))
        i.fn._argc[i.id] = r
    return r


ALLOCS = ("malloc", "calloc", "realloc", "rt_calloc_at", "rt_malloc_at", "rt_realloc_at")


def fresh_root(f, v, depth=0):
    """the object was allocated in this very function"""
    v = ir.strip(f, v)
    if not isinstance(v, int) or v < len(f.args) or depth > 12:
        return False
    i = f.defs[v]
    if i.op == "getelementptr":
        return fresh_root(f, i.ops[0], depth + 1)
    if i.op == "call":
        return i.callee_name in ALLOCS
    if i.op == "alloca":
        return True
    if i.op == "load":
        # a local variable kept in memory whose stores are all fresh
        a = ir.strip(f, i.ops[0])
        if isinstance(a, int) and a >= len(f.args) and f.defs[a].op == "alloca":
            if any(not (u.op == "load" or u.op == "store" and u.ops[1] == a and u.ops[0] != a or u.op == "call" and (u.callee_name or "").startswith("llvm.lifetime"))
                   for u in f.uses()[a]):
                return False      # its address is given away: filled in by someone else
            st = [u for u in f.uses()[a] if u.op == "store" and u.ops[1] == a]
            return bool(st) and all(fresh_root(f, u.ops[0], depth + 1) or u.ops[0] == ["n"] for u in st)
    if i.op == "phi":
        return all(fresh_root(f, x, depth + 4) or x == ["n"] for _, x in i.ops if x != v)
    return False


def translate(v, args):
    """callee lock value -> caller value; None when not expressible"""
    if v[0] in ("g",):
        return v
    if v[0] == "p":
        return args[v[1]] if v[1] < len(args) else None
    if v[0] == "gep":
        b = translate(v[1], args)
        if b is None:
            return None
        if any(s[0] == "i" and s[1][0] != "c" for s in v[2]):
            return None
        return mkgep(b, v[2])
    return None


class LockClient(Client):
    K = 3
    KHEAD = 2
    MAXSTEPS = 150000

    def __init__(self, L, f):
        self.L = L
        self.f = f
        self.exits = []
        self.needs = set()
        self.acq = set()      # lock values first-acquired (translatable) or ("cls", name)

    def init_ts(self, fn):
        return frozenset()

    def ts_live(self, ts):
        return [x for x, n in ts]

    def heldset(self, ts):
        return frozenset(x for x, n in ts if n > 0)

    def find(self, ts, v):
        for x, n in ts:
            if x == v:
                return x, n
        return None

    def match(self, ts, v):
        r = self.find(ts, v)
        if r:
            return r
        c = cls(v)
        same = [(x, n) for x, n in ts if n > 0 and cls(x) == c]
        if len(same) == 1 and c != "?" and v[0] != "g":
            return same[0]
        return None

    def setn(self, ts, v, n):
        s = frozenset((x, k) for x, k in ts if x != v)
        if n != 0:
            s = s | {(v, n)}
        return s

    def report(self, rule, lock, i, text, st):
        key = (rule, self.f.name, cls(lock))
        for r in self.L.reports:
            if r[:3] == key:
                return
        self.L.reports.append(key + (i.where(), text, trail_text(st)))

    def take(self, eng, st, i, v, direct=True):
        r = self.find(st.ts, v)
        n = r[1] if r else 0
        rec = cls(v) in self.L.recursive
        if n >= 1 and not rec:
            self.report("C01.relock", v, i, "%s locks %s again while already holding it" % (self.f.dname, cls(v)), st)
        if n <= 0 and n == 0 and v not in self.needs and direct:
            t = v if self.portable(v) else ("cls", cls(v))
            self.acq.add(t)
        st.ts = self.setn(st.ts, v, min(n + 1, 3))

    def portable(self, v):
        return translate(v, [("p", k) for k in range(20)]) is not None

    def drop(self, eng, st, i, v):
        r = self.match(st.ts, v)
        if r is None or r[1] <= 0:
            n = r[1] if r else 0
            if self.portable(v):
                if n <= -1 and cls(v) not in self.L.recursive:
                    self.report("C01.unheld", v, i, "%s unlocks %s which it no longer holds" % (self.f.dname, cls(v)), st)
                    return
                self.needs.add(v)
                st.ts = self.setn(st.ts, v, n - 1)
            else:
                self.report("C01.unheld", v, i, "%s unlocks %s which it does not hold" % (self.f.dname, cls(v)), st)
            return
        st.ts = self.setn(st.ts, r[0], r[1] - 1)

    def on_call(self, eng, st, i, args):
        n = i.callee_name
        L = self.L
        if n in LOCK or n in TIMED:
            L.nacq += 1
            L.acq_sites.append((self.f, i, args[0], self.heldset(st.ts)))
            self.take(eng, st, i, args[0])
            st.regs[i.id] = ZERO
            # what another thread may have changed while we waited: shared cells are re-read
            return [st]
        if n in TRY:
            s2 = st.copy()
            L.nacq += 1
            self.take(eng, st, i, args[0], False)     # never waits
            st.regs[i.id] = ZERO
            s2.regs[i.id] = ("c", 16)
            return [st, s2]
        if n in UNLOCK:
            L.nrel += 1
            self.drop(eng, st, i, args[0])
            st.regs[i.id] = ZERO
            return [st]
        if n in WAIT:
            r = self.match(st.ts, args[1])
            if r is None or r[1] <= 0:
                if self.portable(args[1]) and (r is None or r[1] == 0):
                    self.needs.add(args[1])
                else:
                    self.report("C01.wait", args[1], i, "%s waits with %s it does not hold" % (self.f.dname, cls(args[1])), st)
            return None
        for a, k in arg_cells(self.f, i):
            h = frozenset(cls(x) for x, k2 in st.ts if k2 > 0)
            key = (self.f.name, i.id, a)
            o = L.acc.get(key)
            L.acc[key] = (i, k, h if o is None else o[2] & h, False)
        L.held_at[(self.f.name, i.id)].append(frozenset(cls(x) for x, k in st.ts if k > 0))
        ts = L.w.targets_known(self.f, i)
        L.call_sites.append((self.f, i, ts, self.heldset(st.ts)))
        effs = []
        for t in ts:
            s = L.sum.get(t)
            if not s:
                continue
            for x in s["acq"]:
                if x[0] == "cls":
                    self.acq.add(x)
                    continue
                v = translate(x, args)
                if v is None:
                    self.acq.add(("cls", cls(x)))
                    continue
                r = self.find(st.ts, v)
                if r and r[1] > 0 and cls(v) not in L.recursive:
                    self.report("C01.relock", v, i, "%s calls %s, which locks %s, while holding it" % (self.f.dname, t, cls(v)), st)
                elif v not in self.needs:
                    self.acq.add(v if self.portable(v) else ("cls", cls(v)))
            for x in s["needs"]:
                v = translate(x, args)
                if v is None:
                    continue
                r = self.match(st.ts, v)
                if not r or r[1] <= 0:
                    if self.portable(v) and (not r or r[1] == 0):
                        self.needs.add(v)
                    else:
                        self.report("C01.unheld", v, i, "%s calls %s, which unlocks %s, without holding it" % (self.f.dname, t, cls(v)), st)
            if s["eff"]:
                effs.append((t, s["eff"]))
        for t, eff in effs[:1]:
            for x, k in eff:
                v = translate(x, args)
                if v is None:
                    continue
                if k > 0:
                    # the relock check was made above through acq
                    r = self.find(st.ts, v)
                    st.ts = self.setn(st.ts, v, (r[1] if r else 0) + k)
                else:
                    self.drop(eng, st, i, v)
        return None

    def on_ret(self, eng, st, i, val):
        self.exits.append((st.ts, i, st, val))

    def note_acc(self, st, i):
        k = static_cell(self.f, i)
        if k is None:
            return
        h = frozenset(cls(x) for x, n in st.ts if n > 0)
        key = (self.f.name, i.id)
        o = self.L.acc.get(key)
        if o is None:
            self.L.acc[key] = (i, k, h, fresh_root(self.f, i.ops[1] if i.op == "store" else i.ops[0]))
        elif not o[2] <= h:
            self.L.acc[key] = (i, k, o[2] & h, o[3])

    def on_load(self, eng, st, i, addr):
        self.note_acc(st, i)

    def on_store(self, eng, st, i, addr, val):
        self.note_acc(st, i)


def contexts(w, L):
    """lock classes certainly held at entry of each function (meet over every call site)"""
    m = w.m
    ALL = None
    sites = defaultdict(list)     # callee -> [(caller, held classes)]
    seen = defaultdict(lambda: None)
    for f, i, ts, h in L.call_sites:
        if f.inlinedAway:
            continue
        hc = frozenset(cls(x) for x in h)
        for t in ts:
            k = (f.name, i.id, t)
            seen[k] = hc if seen[k] is None else seen[k] & hc
    for (fn, _, t), hc in seen.items():
        if t in m.funcs and not m.funcs[t].decl:
            sites[t].append((fn, hc))
    ctx = {}
    roots = set()
    for f in m.defined():
        n = f.name
        if n in w.api or n in w.thread_roots or not sites[n] or n.startswith("main"):
            ctx[n] = frozenset()
            roots.add(n)
        else:
            ctx[n] = ALL
    ch = True
    while ch:
        ch = False
        for f in m.defined():
            n = f.name
            if n in roots:
                continue
            v = ALL
            for c, h in sites[n]:
                if ctx.get(c) is ALL:
                    continue
                x = ctx.get(c, frozenset()) | h
                v = x if v is ALL else v & x
            if v is not ALL and v != ctx[n]:
                ctx[n] = v
                ch = True
    return {n: (frozenset() if v is ALL else v) for n, v in ctx.items()}, sites, roots


if __name__ == "__main__":
    import world, time
    t = time.time()
    w = world.load()
    L = Locks(w)
    print(time.time() - t, L.nfn, L.nacq, L.nrel, L.nexit, L.over, L.recursive)
    for r in L.reports:
        print(r[:5])
        print("      ", r[5][:300])
    for f, s in L.sum.items():
        if s["eff"] or s["needs"]:
            print(f, s["eff"], s["needs"])
