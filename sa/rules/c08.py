"""A provider's handlers are called only on the element that was found, through a handler known to be registered, under that element's mutex."""
from collections import defaultdict
import ir
from engine import *
from rules.c22 import strip0, base

E, T = "elementNode", "rbusElementCallbackTable_t"
STABLE = {(E, "parent"), (E, "fullName"), (E, "type"), (E, "name")}      # fields of an element that do not change while it exists
# handlers of the lower layer: where the pointer is kept
SERVER = {("_server_object", "subscribe_handler_override"), ("_server_object", "callback"), ("_server_event", "sub_callback"),
          ("_server_method", "callback"), ("_rbusServerDMLList", "m_fnCallbackHandler")}
# the operation fails when this handler is missing (get: see GETS)
OPS = {"setHandler", "tableAddRowHandler", "tableRemoveRowHandler", "methodHandler"}
# a collection of what exists: an element without a get handler just contributes nothing
COLLECT = {"get_recursive_wildcard_handler", "_get_recursive_partialpath_handler"}


def slotof(v):
    """(element, slot) of a handler value"""
    if v is not None and v[0] == "op" and v[1].startswith("slot:"):
        return v[2], v[1][5:]
    return None


def kept(v):
    """the record field an element was read from"""
    if v[0] == "op" and v[1].startswith("rec:"):
        return tuple(v[1][4:].split("."))
    return None


class Enter(Client):
    """typestate: elements found by name, mutexes held, properties and their names, elements or handlers found missing"""
    K = 8
    KHEAD = 4
    JOINBEST = True
    MAXSTEPS = 300000

    def __init__(self, w, f, rep, R):
        self.w, self.f, self.rep, self.R = w, f, rep, R

    def init_ts(self, fn):
        return (frozenset(), frozenset(), frozenset(), False, None)

    def ts_live(self, ts):
        return [x for p in ts[0] for x in p] + list(ts[1]) + [x for p in ts[2] for x in p if x[0] != "ap"] + ([ts[4]] if ts[4] else [])

    def missed(self, st):
        """an element searched by name, or the handler the operation needs, turned out missing"""
        for e in {e for e, n in st.ts[0]}:
            if st.isnull(e) is True:
                return True
            for s in self.need:
                for x in (e, ("op", "fld:%s.parent" % E, e, ZERO)):
                    if st.isnull(("op", "slot:" + s, x, ZERO)) is True:
                        return True
        return False

    def ts_prune(self, st):
        found, locks, props, miss, first = st.ts
        if not miss and self.missed(st):
            miss = True
            st.ts = (found, locks, props, miss, first)
        if not found and not props:
            return st.ts
        s = set()
        for v in st.regs.values():
            leaves(v, s)
        for v in st.mem.values():
            leaves(v, s)
        return (frozenset(x for x in found if x[0] in s), locks, frozenset(x for x in props if x[0] in s or x[0][0] == "ap" and x[1] in s), miss, first)

    def on_load(self, eng, st, i, addr):
        self.eng = eng
        b, f = base(addr)
        if f is None:
            return None
        v = None
        if f[0] == T:
            e = b
            eb, ef = base(b)
            if ef == (E, "cbTable"):
                e = eb
            v = ("op", "slot:" + f[1], e, ZERO)
        elif f in STABLE:
            v = ("op", "fld:%s.%s" % f, b, ZERO)
        elif f in SERVER:
            v = ("op", "slot:%s.%s" % f, b, ZERO)
        elif f in self.R.records:
            x = eng.load(st, i, addr)
            if x[0] in ("v", "undef", "j"):
                x = ("op", "rec:%s.%s" % f, b, ZERO)
            st.regs[i.id] = x
            return [st]
        if v is None:
            return None
        m = st.mem.get(addr)
        if m is not None and m[0] in ("c", "f", "p"):
            v = m          # just stored
        st.regs[i.id] = v
        return [st]

    def on_store(self, eng, st, i, addr, val):
        self.eng = eng
        b, f = base(addr)
        if f in self.R.filled and st.isnull(val) is not False:
            if val[0] == "p":
                self.R.want[self.f.name].add((val[1], "value"))
            else:
                self.rep("C08.handler", i, "%s.%s" % f, "%s registers a handler that may be missing" % self.f.dname, st)
        if f in self.R.records and st.isnull(val) is not True:
            for need in self.R.records[f]:
                self.R.nrec += 1
                if need == "found":
                    if not self.nonnull(st, val):
                        self.rep("C08.found", i, "%s.%s" % f, "%s keeps an element in %s.%s that may not have been found" % (self.f.dname, f[0], f[1]), st)
                elif st.isnull(("op", "slot:" + need, val, ZERO)) is not False:
                    self.rep("C08.handler", i, need, "%s keeps an element in %s.%s without having checked its %s, which is called later" % (self.f.dname, f[0], f[1], need), st)
        return None

    def nonnull(self, st, v):
        if st.isnull(v) is False:
            return True
        r = root(v)
        return r[0] in ("al", "g")

    def on_call(self, eng, st, i, args):
        self.eng = eng
        n = i.callee_name
        found, locks, props, miss, first = st.ts
        if n in ("pthread_mutex_lock", "pthread_mutex_unlock"):
            b, f = base(args[0])
            if f == (E, "elmMutex"):
                st.ts = (found, locks | {b} if n.endswith("_lock") else locks - {b}, props, miss, first)
            return None
        if n == "rbusProperty_GetName":
            nm = next((nm for p, nm in sorted(props, key=repr) if p == args[0]), None)
            if nm is None:
                nm = ("v", i.id, 0)
                st.ts = (frozenset((x, y if y != nm else ("c", -1)) for x, y in found), locks, frozenset(x for x in props if x[1] != nm) | {(args[0], nm)}, miss, first)
            st.regs[i.id] = nm
            return [st]
        if n == "rbusProperty_SetName" and len(args) > 1:
            # the place the property is read from keeps the name as well
            at = ("ap", repr(ir.ap(self.f, i.ops[0])))
            st.ts = (found, locks, frozenset(x for x in props if x[0] not in (at, args[0])) | {(at, args[1]), (args[0], args[1])}, miss, first)
            return None
        if n == "rbusMessage_SetInt32" and len(args) > 1:
            if first is None:       # the first number of a response is its status
                self.R.nerr += miss
                if miss and self.iszero(st, args[1]):
                    self.rep("C08.error", i, "response", "%s reports success although the element or its handler is missing" % self.f.dname, st)
                st.ts = (found, locks, props, miss, ZERO)
            return None
        if n == "rbusMessage_Init":
            st.ts = (found, locks, props, miss, None)
            return None
        if n in self.R.needs:
            self.demands(st, i, n, args)
        if n is None:
            s = slotof(eng.val(st, i.callee)) if isinstance(i.callee, (int, list)) else None
            if s:
                self.enter(st, i, s, args)
        return None

    def iszero(self, st, v):
        if v[0] == "c":
            return v[1] == 0
        return st.isnull(v) is True

    def after_call(self, eng, st, i, args):
        n = i.callee_name
        found, locks, props, miss, first = st.ts
        if n in self.R.finders:
            k = self.R.finders[n]
            e = st.regs.get(i.id)
            if e is not None and e[0] != "c":
                found = frozenset((x, nm) for x, nm in found if x[:2] != e[:2]) | {(e, args[k])}
                # properties made for elements of earlier rounds do not matter any more
                st.ts = (found, locks, frozenset(p for p in props if any(p[1] == nm for x, nm in found)), miss, first)
        elif n == "rbusProperty_Init" and args:
            a = strip0(args[0])
            p = eng.load(st, i, a)
            if p[0] in ("v", "undef", "j"):
                p = ("v", i.id, 0)
                eng.store(st, a, p)
            if p[0] == "v":
                st.ts = (found, locks, frozenset((x, nm) for x, nm in props if x[:2] != p[:2] or x[0] != "v") | {(p, args[1])}, miss, first)
        return None

    def enter(self, st, i, s, args):
        R = self.R
        e, slot = s
        R.nenter += 1
        R.sites.add((self.f.dname, i.id))
        f = self.f.dname
        if "." in slot:
            if st.isnull(("op", "slot:" + slot, e, ZERO)) is not False and tuple(slot.split(".")) not in R.filled:
                R.filled.add(tuple(slot.split(".")))        # then it must never be missing
                R.again = True
            return
        if st.isnull(("op", "slot:" + slot, e, ZERO)) is not False and not self.passon(st, e, slot):
            self.rep("C08.handler", i, slot, "%s calls %s without having checked that it is registered" % (f, slot), st)
        if not self.nonnull(st, e) and not self.passon(st, e, "found"):
            self.rep("C08.found", i, slot, "%s calls %s of an element that may not have been found" % (f, slot), st)
        if e not in st.ts[1]:
            self.rep("C08.mutex", i, slot, "%s calls %s without holding that element's mutex" % (f, slot), st)
        elif len(st.ts[1]) > 1:
            pass
        self.named(st, i, e, slot, args)

    def passon(self, st, e, what):
        """the caller, or who filled the record, has to have checked"""
        if e[0] == "p":
            self.R.want[self.f.name].add((e[1], what))
            return True
        k = kept(e)
        if k:
            if what not in self.R.records[k]:
                self.R.records[k].add(what)
                self.R.again = True
            return True
        return False

    def demands(self, st, i, n, args):
        for k, what in self.R.needs[n]:
            if isinstance(k, tuple):
                continue
            self.R.nneed += 1
            e = args[k]
            if what == "value":
                if st.isnull(e) is not False and e[0] in ("p", "c"):
                    if e[0] == "p":
                        self.R.want[self.f.name].add((e[1], "value"))
                    else:
                        self.rep("C08.handler", i, what, "%s registers no handler at all" % self.f.dname, st)
            elif what == "found":
                if not self.nonnull(st, e) and not self.passon(st, e, what):
                    self.rep("C08.found", i, what, "%s calls %s for an element that may not have been found" % (self.f.dname, n), st)
            elif st.isnull(("op", "slot:" + what, e, ZERO)) is not False and not self.passon(st, e, what):
                self.rep("C08.handler", i, what, "%s calls %s, which calls %s, without having checked that it is registered" % (self.f.dname, n, what), st)

    def named(self, st, i, e, slot, args):
        """the handler is told the name its element was found by"""
        nm = self.nameof(st, e)
        own = ("op", "fld:%s.fullName" % E, e, ZERO)
        pos = {"tableSyncHandler": 1, "tableAddRowHandler": 1, "tableRemoveRowHandler": 1, "methodHandler": 1, "eventSubHandler": 2}.get(slot)
        if pos is not None:
            a = args[pos]
            if e[0] == "p" and a[0] == "p":
                return
            if not nm and a != own and a[0] != "p":
                if slot == "tableSyncHandler":
                    self.rep("C08.name", i, slot, "%s calls %s with the name of something else" % (self.f.dname, slot), st)
                return
            self.R.nname += 1
            if nm and a not in nm and a != own:
                self.rep("C08.name", i, slot, "%s calls %s of the element found as one name with another name" % (self.f.dname, slot), st)
            return
        if not nm:
            return
        p = args[1]
        self.R.nname += 1
        at = ("ap", repr(ir.ap(self.f, i.ops[1])))
        names = {x for q, x in st.ts[2] if q in (p, at)}
        if p[0] == "p" and all(x[0] == "p" for x in nm):
            return
        def again(x):
            # read again from the same place
            d = self.f.defs.get(x[1]) if x[0] == "v" else None
            return d is not None and d.op == "call" and d.callee_name == "rbusProperty_GetName" and ir.ap(self.f, d.ops[0]) == ir.ap(self.f, i.ops[1])
        if not names & nm and not any(again(x) for x in nm):
            self.rep("C08.name", i, slot, "%s calls %s of one element with the property of another" % (self.f.dname, slot), st)

    def nameof(self, st, e):
        out = {n for x, n in st.ts[0] if x == e}
        while not out and e[0] == "op" and e[1] == "fld:%s.parent" % E:
            e = e[2]
            out = {n for x, n in st.ts[0] if x == e}
        return out

    def on_ret(self, eng, st, i, val):
        if st.ts[3] and st.ts[4] is None and val is not None and self.need and self.status:
            self.R.nerr += 1
            if self.iszero(st, val):
                self.rep("C08.error", i, "return", "%s returns success although the element or its handler is missing" % self.f.dname, st)


class Rx:
    pass


def run(w, res):
    m = w.m
    R = Rx()
    live = [f for f in m.defined() if not f.inlinedAway]
    R.finders = {}
    for f in m.defined():
        if f.dtypes and f.dtypes[0] == E + "*":
            k = [k for k, t in enumerate(f.dtypes[1:]) if t == "char*"]
            if k and f.dtypes[1:].count(E + "*") == 1 and "uint32_t" not in f.dtypes:
                R.finders[f.dname] = k[0]
    R.records = defaultdict(set)
    R.filled = set()
    # records elements are kept in
    for f in live:
        for i in f.insts():
            if i.op == "call" and i.callee_name is None and not isinstance(i.callee, str):
                p = ir.ap(f, i.callee)
                if p[0] == "ld" and p[1][0] == "fld" and p[1][2] == T:
                    b = p[1][1]
                    while b[0] == "fld" and b[2] == E:
                        b = b[1]
                    if b[0] == "ld" and b[1][0] == "fld" and b[1][2] != E:
                        R.records[b[1][2:]] |= set()
    heads = {"rbusProperty_GetName"}

    def mk(f, seen):
        def rep(rule, i, obj, text, st=None):
            k = (rule, f.dname, obj)
            if k not in seen:
                seen[k] = (rule, f.dname, obj, i.where(), text, trail_text(st, 8) if st else "")
        return rep
    R.needs = {}
    for rnd in range(4):
        R.want = defaultdict(set)
        R.again = False
        R.nenter = R.nrec = R.nneed = R.nname = R.nerr = R.nslot = 0
        R.sites = set()
        seen = {}
        nf = 0
        for n in w.bottom_up():
            f = m.funcs.get(n)
            if f is None or f.decl or f.inlinedAway:
                continue
            slots = set()
            for i in f.insts():
                if i.op == "call" and i.callee_name is None and not isinstance(i.callee, str):
                    p = ir.ap(f, i.callee)
                    if p[0] == "ld" and p[1][0] == "fld" and (p[1][2] == T or p[1][2:] in SERVER):
                        slots.add(p[1][3])
            recs = any(i.op == "store" and ir.apclass(ir.ap(f, i.ops[1])) in {"%s.%s" % r for r in set(R.records) | R.filled} for i in f.insts())
            if not slots and not recs and not any(i.callee_name in R.needs for i in f.calls()):
                continue
            c = Enter(w, f, mk(f, seen), R)
            c.need = slots & OPS or (slots & {"getHandler"} if f.dname not in COLLECT else set())
            c.status = f.dtypes and ("rror" in f.dtypes[0] or f.dtypes[0] == "int")
            nf += 1
            if Engine(w, f, c).run().over:
                raise RuntimeError("path budget exceeded in " + f.name)
        # obligations on callers: a function nobody but the outside calls cannot pass them on
        new = {}
        for n, ws in R.want.items():
            f = m.funcs[n]
            called = [i for i in m.callers().get(n, ()) if not i.fn.inlinedAway]
            if n in w.api or not called or not f.internal and f.addrTaken and any(what != "value" for k, what in ws):
                for k, what in ws:
                    txt = {"found": "%s uses an element it is given without checking it", "value": "%s registers a handler without checking that there is one"}.get(what, "%%s calls %s of an element it is given without checking it" % what)
                    seen[("C08.caller", f.dname, what)] = ("C08.found" if what == "found" else "C08.handler", f.dname, what, "%s:%s" % (f.file, f.line0), txt % f.dname, "")
            else:
                new[f.dname] = frozenset(ws)
        if new == R.needs and not R.again:
            break
        R.needs = new
    for k in sorted(seen, key=repr):
        res.add(*seen[k])
    # the handlers of an element are the ones it was registered with, each in its own place
    ns = 0
    slots = {x[0] for x in m.structs[T]}
    for f in live:
        kinds = None
        copied = set()
        for i in f.insts():
            if i.op != "store":
                continue
            p = ir.ap(f, i.ops[1])
            if p[0] == "fld" and p[2] == T:
                if kinds is None:
                    kinds = Kind(m.enumvals["RBUS_ELEMENT_TYPE_TABLE"])
                    Engine(w, f, kinds).run()
                ns += 1
                v = ir.ap(f, i.ops[0])
                src = v[1][3] if v[0] == "ld" and v[1][0] == "fld" else None
                ok = src == p[3]
                if src:
                    copied.add(p[3])
                if not ok and p[3] == "tableSyncHandler":
                    ok = v[0] == "arg" and "SyncHandler" in f.dname or src == "methodHandler" and kinds.at.get(i.id) == {True}
                if ok and p[3] == "methodHandler" and kinds.at.get(i.id) != {False}:
                    ok = False
                if not ok:
                    res.add("C08.slot", f.dname, p[3], i.where(), "%s registers something else as an element's %s" % (f.dname, p[3]), "")
            elif p[0] == "fld" and p[2:] == (E, "cbTable"):
                ns += 1
        lost = slots - copied - {"tableSyncHandler"}
        if copied and lost:
            res.add("C08.slot", f.dname, "lost", "%s:%s" % (f.file, f.line0), "%s does not give the element the handlers %s" % (f.dname, ", ".join(sorted(lost))), "")
    for f in live:
        for i in f.calls():
            if i.callee_name and "memcpy" in i.callee_name:
                p, q = ir.ap(f, i.ops[0]), ir.ap(f, i.ops[1])
                if p[0] == "fld" and p[2:] == (E, "cbTable"):
                    ns += 1
                    if not (q[0] == "fld" and q[2:] == (E, "cbTable")) or i.ops[2][:2] != ["c", 56]:
                        res.add("C08.slot", f.dname, "cbTable", i.where(), "%s gives an element a part of the handlers, or those of something else" % f.dname, "")
    res.count("handler_calls", len(R.sites), 18)
    res.count("handler_call_paths", R.nenter, 25)
    res.count("functions", nf, 14)
    res.count("names_checked", R.nname, 8)
    res.count("records_filled", R.nrec, 1)
    res.count("failures_reported", R.nerr, 6)
    res.count("handler_slots_filled", ns, 8)
    res.rule("C08.handler: every indirect call through a handler kept for an element, event, method or object happens where that very handler is known to be set (by a test on the path, by every caller, or by whoever filled the record it is read from); "
             "C08.found: and the element is known to exist; C08.mutex: with that element's own mutex held; C08.name: the name or property given to the handler is the one its element was found by; "
             "C08.error: on a path that found the element or the handler missing, the first number of the response, or the returned status, is not success; "
             "C08.slot: elements get each handler they were registered with, in its own place")


class Kind(Client):
    """what is known of the kind of element when a handler is put in its place"""
    K = 6

    def __init__(self, table):
        self.table = table
        self.at = {}

    def init_ts(self, fn):
        return None

    def on_load(self, eng, st, i, addr):
        b, f = base(addr)
        if f == ("rbusDataElement_t", "type"):
            st.regs[i.id] = ("op", "fld:type", b, ZERO)
            return [st]
        return None

    def on_store(self, eng, st, i, addr, val):
        b, f = base(addr)
        if f and f[0] == T:
            k = None
            for v in st.facts:
                if v[0] == "op" and v[1] == "fld:type":
                    lo, hi = st.rng(v)
                    if lo == hi == self.table:
                        k = True
                    elif self.table < lo or self.table > hi or self.table in st.facts[v][2]:
                        k = False
            self.at.setdefault(i.id, set()).add(k)
        return None
