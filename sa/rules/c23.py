"""Application callbacks: which mutexes can be held when one is entered, over every calling context."""
from collections import defaultdict
import ir
from locks import Locks, cls

# handlers of one element are serialised by that element's own mutex (C08); no library call takes another element's through it
ALLOWED = {"elementNode.elmMutex"}
# not callbacks of the application's logic: the log hook and container helpers' item functions
SKIP = {"rtLogPrintf", "rtList_RemoveAllItems", "rtThread_WorkerThreadFunc"}


def run(w, res):
    L = Locks(w)
    direct = defaultdict(dict)      # function -> callback slot -> call
    edges = defaultdict(set)
    held = []                       # (function, call, targets, classes, slot or None)
    nsite = set()
    for f, i, ts, h in L.call_sites:
        if f.inlinedAway:
            continue
        edges[f.name] |= set(ts)
        slot = None
        if f.dname not in SKIP and w.is_user(f, i):
            p = ir.ap(f, i.callee)
            slot = ir.apclass(p[1]) if p[0] == "ld" else "?"
            direct[f.name].setdefault(slot, i)
            nsite.add((f.name, i.id))
        if h:
            held.append((f, i, ts, {cls(x) for x in h}, slot))
    # slots reachable from each function, with the next function on a shortest way there
    reach = {n: {s: (0, None, i) for s, i in d.items()} for n, d in direct.items()}
    back = defaultdict(set)
    for a, bs in edges.items():
        for b in bs:
            back[b].add(a)
    work = list(reach)
    while work:
        n = work.pop()
        for c in back[n]:
            r = reach.setdefault(c, {})
            for s, (d, _, _) in reach[n].items():
                if s not in r or r[s][0] > d + 1:
                    r[s] = (d + 1, n, None)
                    work.append(c)

    def chain(n, s):
        c = [n]
        while reach[n][s][1]:
            n = reach[n][s][1]
            c.append(n)
        return " -> ".join(c) + " (%s)" % reach[n][s][2].where().split(" ")[0]

    pairs = 0
    for f, i, ts, h, slot in held:
        got = {}
        if slot:
            got[slot] = "called here"
        for t in sorted(ts):
            for s in reach.get(t, ()):
                got.setdefault(s, "through " + chain(t, s))
        for s, how in sorted(got.items()):
            for l in sorted(h):
                pairs += 1
                if l not in ALLOWED:
                    res.add("C23.callback", f.dname, l + ">" + s.split(".")[-1], i.where(), "%s can call the application (%s) while it holds %s, %s" % (f.dname, s, l, how))
    res.count("callback_sites", len(nsite), 20)
    res.count("functions_reaching_a_callback", len(reach), 50)
    res.count("calls_made_with_a_mutex_held", len(held), 200)
    res.count("site_lock_pairs", pairs, 10)
    res.rule("C23.callback: at every call made with a mutex other than an element's own in the lock set of the path, no call through an application-supplied function pointer is made there or reachable through the callees")
    res.assume("the log hook is not counted as an application callback")
