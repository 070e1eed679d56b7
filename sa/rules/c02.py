"""Lock order: the graph 'holds x while acquiring y' over lock classes, plus thread joins, must have no cycle."""
from collections import defaultdict, deque
import ir
from locks import Locks, cls
from ir import ap, apclass


def acls(x):
    return x[1] if x[0] == "cls" else cls(x)


def thread_fields(w):
    """thread handle location class -> thread functions started into it"""
    r = defaultdict(set)
    for f in w.m.defined():
        for i in f.calls("pthread_create"):
            loc = apclass(ap(f, i.ops[0]))
            fn = i.ops[2]
            if isinstance(fn, list) and fn[0] == "f":
                r[loc].add(fn[1])
            elif isinstance(fn, int):
                r[loc] |= {x for x in w.pts.get(("ssa", f.name, ir.strip(f, fn)), ()) if x != "USER"}
    return r


def edges(w, L):
    E = defaultdict(list)
    rec = L.recursive
    for f, i, v, h in L.acq_sites:
        for x in h:
            if x == v:
                continue
            a, b = cls(x), cls(v)
            if a == b and a in rec:
                continue
            E[(a, b)].append("%s: %s" % (f.dname, i.where()))
    for f, i, ts, h in L.call_sites:
        if not h:
            continue
        for t in ts:
            s = L.sum.get(t)
            if not s:
                continue
            nd = {cls(x) for x in s["needs"]}
            for c in s["acq"]:
                for x in h:
                    a, b = cls(x), acls(c)
                    if a in nd or (a == b and a in rec):
                        continue
                    if a == b and c[0] != "cls":
                        continue    # same access path: C01 decides relocking
                    E[(a, b)].append("%s calls %s: %s" % (f.dname, t, i.where()))
    return E


def run(w, res):
    L = Locks(w)
    E = edges(w, L)
    tf = thread_fields(w)
    njoin = 0
    # joins: locks held at the join wait for the thread, the thread waits for the locks it takes
    joinfn = defaultdict(set)      # function -> thread nodes it joins (transitively)
    for f in w.m.defined():
        for i in f.calls("pthread_join"):
            p = ap(f, i.ops[0])
            loc = apclass(p[1]) if p[0] == "ld" else apclass(p)
            ts = tf.get(loc, set())
            njoin += 1
            for t in ts:
                joinfn[f.name].add((t, i))
    trans = {n: {t for t, _ in s} for n, s in joinfn.items()}
    ch = True
    while ch:
        ch = False
        for n, cs in w.callees.items():
            for c in cs:
                new = trans.get(c, set()) - trans.get(n, set())
                if new:
                    trans.setdefault(n, set()).update(new)
                    ch = True
    J = defaultdict(list)          # (lock held, thread joined) pairs where the thread takes the lock
    for f, i, ts, h in L.call_sites:
        if i.callee_name == "pthread_join":
            js = {t for t, k in joinfn[f.name] if k is i}
        else:
            js = set().union(*[trans.get(t, set()) for t in ts]) if ts else set()
        for t in js:
            takes = {acls(c) for c in L.sum[t]["acq"]} if t in L.sum else set()
            for x in h:
                if cls(x) in takes:
                    J[(cls(x), t)].append("%s: %s" % (f.dname, i.where()))
    # order within a callback the application re-enters is C23's
    g = defaultdict(set)
    for a, b in E:
        g[a].add(b)
    seen = set()
    for (a, b) in sorted(E):
        # shortest way back from b to a
        prev = {b: None}
        q = deque([b])
        while q and a not in prev:
            x = q.popleft()
            for y in sorted(g[x]):
                if y not in prev:
                    prev[y] = x
                    q.append(y)
        if a not in prev:
            continue
        cyc = [a]
        x = prev[a] if a != b else None
        while x is not None:
            cyc.append(x)
            x = prev[x]
        cyc = cyc[::-1] if a != b else [a]
        # cyc: b ... a
        key = "<->".join(sorted(set(cyc)))
        if key in seen:
            continue
        seen.add(key)
        path = cyc + [cyc[0]] if a != b else [a, a]
        wit = []
        for x, y in zip(path, path[1:]):
            wit.append("holding %s, takes %s: %s" % (x, y, sorted(set(E[(x, y)]), key=len)[0]))
        res.add("C02.cycle", "order", key, wit[0].split(": ", 1)[1], "mutexes are nested in both orders, so threads can wait for each other: " + "; ".join(wit))
    for (x, t), wh in sorted(J.items()):
        res.add("C02.join", t, x, sorted(set(wh), key=len)[0], "waits for thread %s to end while holding %s, which that thread takes: %s" % (t, x, "; ".join(sorted(set(wh), key=len)[:4])))
    res.count("lock_classes", len(set(x for e in E for x in e)), 15)
    res.count("acquisition_sites", len(set((f.name, i.id) for f, i, _, _ in L.acq_sites)), 100)
    res.count("order_edges", len(E), 30)
    res.count("join_sites", njoin, 5)
    res.rule("C02.cycle: no cycle among 'holds x while acquiring y', through every call chain; C02.join: no thread is joined, through any call chain, while holding a mutex that thread takes")
    res.assume("mutexes of the same struct field are one class; a cycle between two instances of one class is reported only if the class is nested in itself")
