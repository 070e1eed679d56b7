"""Public operations given null for a handle or a required argument return an error before they touch it."""
import ir
from engine import *

# library functions that read or write through an argument whatever its value
EXT = {"strlen": (0,), "strcmp": (0, 1), "strncmp": (0, 1), "strcasecmp": (0, 1), "strncasecmp": (0, 1), "strcpy": (0, 1), "strncpy": (0, 1), "strcat": (0, 1), "strncat": (0, 1),
       "strdup": (0,), "strndup": (0,), "__strdup": (0,), "strchr": (0,), "strrchr": (0,), "strstr": (0, 1), "strtok_r": (1, 2), "atoi": (0,), "atol": (0,), "strnlen": (0,),
       "strtol": (0,), "strtoul": (0,), "strtoll": (0,), "strtoull": (0,), "strtod": (0,), "strtof": (0,), "memcmp": (0, 1), "isalpha": (), "fwrite": (0, 3), "fprintf": (0, 1), "fputs": (0, 1),
       "sscanf": (0,), "__isoc99_sscanf": (0,), "__isoc23_sscanf": (0,), "__isoc23_strtol": (0,), "__isoc23_strtoul": (0,), "__isoc23_strtoll": (0,), "__isoc23_strtoull": (0,),
       "pthread_mutex_lock": (0,), "pthread_mutex_unlock": (0,), "pthread_mutex_trylock": (0,), "pthread_cond_signal": (0,), "pthread_cond_broadcast": (0,), "fopen": (0, 1), "fclose": (0,),
       "rtLog_SetLevel": (), "clock_gettime": (1,), "time": (), "strptime": (0, 1), "snprintf": (), "inet_pton": (1, 2)}
SEND = ("rtConnection_SendInternal", "rtConnection_SendRequestInternal", "rtConnection_SendMessageDirect", "rtConnection_SendBinaryDirect", "rtConnection_Create", "rtConnection_CreateInternal",
        "rtConnection_AddListener", "rtConnection_AddListenerWithId", "rtConnection_RemoveListener", "rtConnection_RemoveListenerWithId")
# the value, property, object, filter and buffer types are plain data structures: outside the property
DATA = {"rbus_value.h", "rbus_property.h", "rbus_object.h", "rbus_filter.h", "rbus_buffer.h"}
# arguments an operation cannot do without: null must be refused
REQUIRED = {       # by position
    "rbusElementInfo_get": (1, 3), "rbusEvent_Publish": (1,), "rbusEvent_PublishRawData": (1,), "rbusEvent_Subscribe": (1, 2),
    "rbusEvent_SubscribeAsync": (1, 2, 3), "rbusEvent_SubscribeEx": (1,), "rbusEvent_SubscribeExAsync": (1, 3), "rbusEvent_SubscribeExRawData": (1,),
    "rbusEvent_SubscribeRawData": (1, 2), "rbusEvent_Unsubscribe": (1,), "rbusEvent_UnsubscribeEx": (1,), "rbusEvent_UnsubscribeExRawData": (1,),
    "rbusEvent_UnsubscribeRawData": (1,), "rbusMethod_Invoke": (1, 3), "rbusMethod_InvokeAsync": (1, 3), "rbusMethod_SendAsyncResponse": (0,),
    "rbusTable_addRow": (1,), "rbusTable_getRowNames": (1, 2), "rbusTable_registerRow": (1,), "rbusTable_removeRow": (1,),
    "rbusTable_unregisterRow": (1,), "rbus_createSession": (1,), "rbus_discoverComponentDataElements": (1, 3, 4),
    "rbus_discoverComponentName": (2, 3, 4), "rbus_get": (1, 2), "rbus_getBoolean": (1, 2), "rbus_getCurrentSession": (1,), "rbus_getExt": (2, 3, 4),
    "rbus_getInt": (1, 2), "rbus_getStr": (1, 2), "rbus_getUint": (1, 2), "rbus_open": (0, 1), "rbus_openDirect": (1, 2),
    "rbus_regDataElements": (2,), "rbus_registerDynamicTableSyncHandler": (1,), "rbus_registerLogHandler": (0,), "rbus_set": (1, 2),
    "rbus_setBoolean": (1,), "rbus_setCommit": (1,), "rbus_setInt": (1,), "rbus_setMulti": (2,), "rbus_setMultiExt": (2,), "rbus_setStr": (1, 2),
    "rbus_setUInt": (1,), "rbus_unregDataElements": (2,),
}
MEM = {"memcpy": 2, "memmove": 2}


class Null(Client):
    K = 4
    MAXSTEPS = 40000

    def __init__(self, R, f, nulls):
        self.R, self.f, self.nulls = R, f, nulls
        self.hits = {}
        self.rets = []

    def init_ts(self, fn):
        return None            # the first call made that has an effect on the bus

    def init_state(self, fn, st):
        for k in self.nulls:
            st.facts[("p", k)] = (0, 0, frozenset())

    def which(self, st, v):
        r = root(v)
        if r[0] == "p" and r[1] in self.nulls and st.isnull(r) is not False:
            return r[1]
        return None

    def hit(self, st, i, k, what):
        if k is not None and k not in self.hits:
            self.hits[k] = (i, what, trail_text(st, 6))

    def on_load(self, eng, st, i, addr):
        self.hit(st, i, self.which(st, addr), "reads through it")
        return [] if self.which(st, addr) is not None else None

    def on_store(self, eng, st, i, addr, val):
        self.hit(st, i, self.which(st, addr), "writes through it")
        return [] if self.which(st, addr) is not None else None

    def on_rmw(self, eng, st, i, addr, sym):
        self.hit(st, i, self.which(st, addr), "updates it")

    def on_call(self, eng, st, i, args):
        n = i.callee_full
        if n is None:
            return None
        if n.startswith("llvm.mem"):
            if st.const(args[2]) != 0:
                for k in (0, 1) if not n.startswith("llvm.memset") else (0,):
                    self.hit(st, i, self.which(st, args[k]), "copies through it")
            return None
        if n in MEM:
            if st.const(args[2]) != 0:
                for k in (0, 1):
                    self.hit(st, i, self.which(st, args[k]), "copies through it")
            return None
        g = self.R.w.m.funcs.get(n)
        if g is None or g.decl:
            for k in EXT.get(n, ()):
                if k < len(args):
                    h = self.which(st, args[k])
                    self.hit(st, i, h, "passes it to %s" % n)
                    if h is not None:
                        return []
            return None
        ks = tuple(k for k, a in enumerate(args) if k < len(g.args) and g.argtypes[k] == "ptr" and st.isnull(a) is True)
        mine = {k: self.which(st, args[k]) for k in ks}
        if any(v is not None for v in mine.values()):
            s = self.R.summary(g, ks)
            for k in ks:
                if mine[k] is not None and k in s:
                    j, what, tr = s[k]
                    self.hit(st, i, mine[k], "passes it to %s, which at %s %s" % (g.dname, j.where(), what))
                    return []
            if self.R.fails(g, ks):      # handed the null on: it is the one that refuses
                eff = [e for *_, e in self.R.rets[(g.name, ks)] if e]
                if st.ts is None and eff:
                    st.ts = eff[0]
                return None
        if st.ts is None and n in self.R.effects:
            st.ts = (n, i.where())
        return None

    def after_call(self, eng, st, i, args):
        """a call that was given the null argument and always fails then has failed"""
        n = i.callee_full
        g = self.R.w.m.funcs.get(n) if n else None
        if g is None or g.decl or not i.ty or i.id not in st.regs:
            return None
        ks = tuple(k for k, a in enumerate(args) if k < len(g.args) and g.argtypes[k] == "ptr" and st.isnull(a) is True)
        if any(self.which(st, args[k]) is not None for k in ks) and self.R.fails(g, ks):
            v = st.regs[i.id]
            lo, hi = st.rng(v)
            st.facts[v] = (lo, hi, (st.facts.get(v) or (0, 0, frozenset()))[2] | {0})
        return None

    def on_ret(self, eng, st, i, val):
        self.rets.append((st.const(val) if val is not None else None, i, trail_text(st, 6), val is not None and (st.isnull(val) is False or 0 in (st.facts.get(val) or (0, 0, ()))[2]), st.ts))


class R:
    def __init__(self, w):
        self.w = w
        self.memo = {}
        self.rets = {}
        self.n = 0
        # what reaches the transport
        self.effects = set(x for x in SEND if x in w.m.funcs)
        todo = list(self.effects)
        while todo:
            for i in w.m.callers().get(todo.pop(), ()):
                if i.fn.name not in self.effects:
                    self.effects.add(i.fn.name)
                    todo.append(i.fn.name)

    def summary(self, g, ks):
        key = (g.name, ks)
        if key not in self.memo:
            self.memo[key] = {}
            c = self.run(g, ks)
            self.memo[key] = c.hits
            self.rets[key] = c.rets
        return self.memo[key]

    def fails(self, g, ks):
        """never returns success when these arguments are null"""
        self.summary(g, ks)
        return bool(self.rets.get((g.name, ks))) and all(v not in (0, None) or v is None and nz for v, _, _, nz, _ in self.rets[(g.name, ks)])

    def run(self, g, ks):
        c = Null(self, g, set(ks))
        self.n += 1
        if Engine(self.w, g, c).run().over:
            raise RuntimeError("path budget exceeded in " + g.name)
        return c


def run(w, res):
    m = w.m
    r = R(w)
    nargs = nfn = nh = nreq = 0
    seen = set()
    for name in sorted(w.api):
        f = m.funcs[name]
        if w.api[name] in DATA:
            continue
        nfn += 1
        for k, t in enumerate(f.argtypes):
            if t != "ptr":
                continue
            nargs += 1
            c = r.run(f, (k,))
            an = f.argnames[k] or "argument %d" % k
            if k in c.hits:
                i, what, tr = c.hits[k]
                res.add("C14.null", name, an, i.where(), "%s called with %s null %s" % (name, an, what), tr)
                continue
            hnd = f.dtypes[k + 1] == "rbusHandle_t" and f.dtypes[0] == "rbusError_t"
            if hnd or k in REQUIRED.get(name, ()):
                nh += hnd
                nreq += not hnd
                seen.add((name, k))
                for v, i, tr, nz, eff in c.rets:
                    if v == 0 or v is None and not nz:
                        res.add("C14.accept", name, an, i.where(), "%s called with %s null can return success" % (name, an), tr)
                        break
                for v, i, tr, nz, eff in c.rets:
                    if eff:
                        res.add("C14.late", name, an, eff[1], "%s called with %s null is refused only after it has called %s" % (name, an, eff[0]), tr)
                        break
    for name, l in REQUIRED.items():
        for k in l:
            if name in m.funcs and (k >= len(m.funcs[name].argtypes) or m.funcs[name].argtypes[k] != "ptr"):
                raise RuntimeError("%s has no pointer argument %d any more" % (name, k))
    res.count("public_operations", nfn, 60)
    res.count("pointer_arguments", nargs, 140)
    res.count("handle_arguments", nh, 50)
    res.count("required_arguments", nreq, 60)
    res.count("functions_followed", r.n, 150)
    res.count("operations_reaching_the_transport", len(r.effects), 60)
    res.rule("C14.null: with one pointer argument null, no path of a public operation or of what it calls reads or writes through it or gives it to a library function that does; "
             "C14.accept: with a null handle or a null required argument every return value is an error; C14.late: nothing that reaches the transport is called before the refusal")
