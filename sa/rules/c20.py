"""Statuses keep their meaning when they pass from one layer to another; only success becomes success."""
from engine import *

CORE, RBUS, LEGACY, RT, VAL = "rbusCoreError_t", "_rbusError", "_rbus_legacy_returns", "rtError", "rbusValueError_t"
# translator -> (enumeration translated from, enumeration translated to, success, {status: what it must become}); the others may become any failure
E = "RBUS_ERROR_"
TR = {
    "rbusCoreError_to_rbusError": (CORE, RBUS, "RBUSCORE_SUCCESS", {
        "RBUSCORE_SUCCESS": E + "SUCCESS", "RBUSCORE_SUCCESS_ASYNC": E + "ASYNC_RESPONSE", "RBUSCORE_ERROR_GENERAL": E + "BUS_ERROR",
        "RBUSCORE_ERROR_INVALID_PARAM": E + "INVALID_INPUT", "RBUSCORE_ERROR_INVALID_STATE": E + "SESSION_ALREADY_EXIST",
        "RBUSCORE_ERROR_INSUFFICIENT_MEMORY": E + "OUT_OF_RESOURCES", "RBUSCORE_ERROR_OUT_OF_RESOURCES": E + "OUT_OF_RESOURCES",
        "RBUSCORE_ERROR_REMOTE_END_DECLINED_TO_RESPOND": E + "DESTINATION_RESPONSE_FAILURE", "RBUSCORE_ERROR_REMOTE_END_FAILED_TO_RESPOND": E + "DESTINATION_RESPONSE_FAILURE",
        "RBUSCORE_ERROR_REMOTE_TIMED_OUT": E + "TIMEOUT", "RBUSCORE_ERROR_MALFORMED_RESPONSE": E + "INVALID_RESPONSE_FROM_DESTINATION",
        "RBUSCORE_ERROR_UNSUPPORTED_METHOD": E + "INVALID_METHOD", "RBUSCORE_ERROR_UNSUPPORTED_EVENT": E + "INVALID_EVENT",
        "RBUSCORE_ERROR_DESTINATION_UNREACHABLE": E + "DESTINATION_NOT_REACHABLE", "RBUSCORE_ERROR_SUBSCRIBE_NOT_HANDLED": E + "INVALID_OPERATION",
        "RBUSCORE_ERROR_ENTRY_NOT_FOUND": E + "DESTINATION_NOT_FOUND"}),
    "CCSPError_to_rbusError": (LEGACY, RBUS, "RBUS_LEGACY_ERR_SUCCESS", {
        "RBUS_LEGACY_ERR_SUCCESS": E + "SUCCESS", "RBUS_LEGACY_ERR_MEMORY_ALLOC_FAIL": E + "OUT_OF_RESOURCES", "RBUS_LEGACY_ERR_TIMEOUT": E + "TIMEOUT",
        "RBUS_LEGACY_ERR_NOT_EXIST": E + "DESTINATION_NOT_FOUND", "RBUS_LEGACY_ERR_RESOURCE_EXCEEDED": E + "OUT_OF_RESOURCES",
        "RBUS_LEGACY_ERR_NOT_CONNECT": E + "OUT_OF_RESOURCES", "RBUS_LEGACY_ERR_FAILURE": E + "BUS_ERROR",
        "RBUS_LEGACY_ERR_INVALID_PARAMETER_NAME": E + "INVALID_NAMESPACE", "RBUS_LEGACY_ERR_INVALID_PARAMETER_TYPE": E + "INVALID_PARAMETER_TYPE",
        "RBUS_LEGACY_ERR_INVALID_PARAMETER_VALUE": E + "INVALID_PARAMETER_VALUE", "RBUS_LEGACY_ERR_NOT_WRITABLE": E + "NOT_WRITABLE"}),
    "translate_rt_error": (None, CORE, None, {}),
}
DOM = {"rtError": "rtError", "rbusError_t": "rbusError_t", "rbusCoreError_t": "rbusCoreError_t", "rbusValueError_t": "rbusValueError_t"}
# translators whose parameter is declared with another type than the one it holds
PARAM = {("rbusCoreError_to_rbusError", 0): "rbusCoreError_t", ("CCSPError_to_rbusError", 0): None}
RTVALS = list(range(1, 14)) + list(range(1000, 1009)) + [(0x80000000 | e) - (1 << 32) for e in range(1, 134)]


class Const(Client):
    K = 200        # the status is known: a search through a table is followed entry by entry
    KHEAD = 200

    def __init__(self, val=None, others=None):
        self.val, self.others = val, others
        self.out = []

    def init_state(self, fn, st):
        if self.val is not None:
            st.facts[("p", 0)] = (self.val, self.val, frozenset())
        else:
            st.facts[("p", 0)] = (-(1 << 31), (1 << 31) - 1, frozenset(self.others))

    def on_ret(self, eng, st, i, val):
        self.out.append((val, st.const(val), st.isnull(val), i, trail_text(st, 4)))


class Flow(Client):
    """which call a returned or handed-on status comes from"""
    K = 6
    MAXSTEPS = 80000

    def __init__(self, m):
        self.m = m
        self.org = {}
        self.ret = {}
        self.arg = {}
        self.n = 0

    def origin(self, v):
        while v[0] == "op" and len(v) == 3:
            v = v[2]
        return self.org.get(v)

    def on_call(self, eng, st, i, args):
        g = self.m.funcs.get(i.callee_full or "")
        if g is None or not g.dtypes:
            return None
        for k, a in enumerate(args):
            if k + 1 < len(g.dtypes):
                d = PARAM.get((g.dname, k), DOM.get(g.dtypes[k + 1]))
                if d and st.const(a) is None and self.origin(a) is not None:
                    self.n += 1
                    self.arg[(i, k, self.origin(a))] = (d, g.dname, trail_text(st, 5))
        return None

    def after_call(self, eng, st, i, args):
        if i.ty and i.id in st.regs and st.regs[i.id][0] == "v":
            g = self.m.funcs.get(i.callee_full or "")
            if g is not None and g.dtypes and g.dtypes[0] in DOM:
                self.org[st.regs[i.id]] = (i, g)

    def on_ret(self, eng, st, i, val):
        if val is not None and st.const(val) is None:
            o = self.origin(val)
            if o is not None:
                self.n += 1
                self.ret[o] = (i, trail_text(st, 5))


def enum(m, name):
    e = m.enums.get(name)
    if not e:
        raise RuntimeError("no enumeration " + name)
    return e


def one(w, f, **k):
    c = Const(**k)
    if Engine(w, f, c).run().over or not c.out:
        raise RuntimeError("no result of " + f.name)
    return c.out


def run(w, res):
    m = w.m
    ncase = 0
    for n, (src, dst, ok, tab) in sorted(TR.items()):
        f = m.funcs.get(n)
        if f is None or f.decl:
            raise RuntimeError("translator %s is gone" % n)
        d = enum(m, dst)
        name = {v: k for k, v in d.items()}
        cases = sorted(enum(m, src).items()) if src else [("RT_OK", 0)] + [("rtError %d" % v, v) for v in RTVALS]
        succ = {0}
        for s, v in cases + [("a status outside the enumeration", None)]:
            ncase += 1
            outs = one(w, f, val=v) if v is not None else one(w, f, others=[x for _, x in cases])
            for val, c, _, i, tr in outs:
                if c is None:
                    res.add("C20.table", n, s, i.where(), "%s does not turn %s into one definite status" % (n, s), tr)
                elif (c in succ) != (s in ("RT_OK", ok)):
                    res.add("C20.success", n, s, i.where(), "%s turns %s into %s" % (n, s, name.get(c, c)), tr)
                elif s in tab and name.get(c) != tab[s]:
                    res.add("C20.meaning", n, s, i.where(), "%s turns %s into %s, not into %s" % (n, s, name.get(c, c), tab[s]), tr)
                elif c not in name:
                    res.add("C20.meaning", n, s, i.where(), "%s turns %s into %d, which is no status" % (n, s, c), tr)
        for s in tab:
            if s not in dict(cases):
                raise RuntimeError("no status %s any more" % s)
    # errno -> rtError
    f = m.fn("rtErrorFromErrno")
    for e in range(0, 134):
        for val, c, nul, i, tr in one(w, f, val=e):
            ncase += 1
            if c is None or (c == 0) != (e == 0):
                res.add("C20.success", "rtErrorFromErrno", str(e), i.where(), "rtErrorFromErrno turns errno %d into %s" % (e, c), tr)
    # every public error has a text of its own
    f = m.fn("rbusError_ToString")
    texts = {}
    other = {val for val, *_ in one(w, f, others=list(enum(m, RBUS).values()))}
    for s, v in sorted(enum(m, RBUS).items()):
        for val, c, nul, i, tr in one(w, f, val=v):
            ncase += 1
            if val in other or nul is not False:
                res.add("C20.text", "rbusError_ToString", s, i.where(), "rbusError_ToString has no text for %s" % s, tr)
            elif val in texts and texts[val] != s:
                res.add("C20.text", "rbusError_ToString", s, i.where(), "rbusError_ToString gives %s the text of %s" % (s, texts[val]), tr)
            texts.setdefault(val, s)
    # no status is handed on as one of another layer
    nf = nv = 0
    for f in m.defined():
        if f.inlinedAway:
            continue
        c = Flow(m)
        if not any(i.op == "call" and (g := m.funcs.get(i.callee_full or "")) and g.dtypes and g.dtypes[0] in DOM for i in f.insts()):
            continue
        nf += 1
        Engine(w, f, c).run()
        nv += c.n
        for (i, g), (r, tr) in sorted(c.ret.items(), key=lambda x: x[0][0].where()):
            if f.dtypes[0] in DOM and DOM[f.dtypes[0]] != DOM[g.dtypes[0]]:
                res.add("C20.layer", f.dname, g.dname, r.where(), "%s returns the %s it got from %s at %s as its own %s" % (f.dname, g.dtypes[0], g.dname, i.where(), f.dtypes[0]), tr)
        for (i, k, (j, g)), (d, cn, tr) in sorted(c.arg.items(), key=lambda x: (x[0][0].where(), x[0][1])):
            if d != DOM[g.dtypes[0]]:
                res.add("C20.layer", f.dname, cn, i.where(), "%s hands the %s it got from %s to %s, which takes a %s" % (f.dname, g.dtypes[0], g.dname, cn, d), tr)
    res.count("translations_evaluated", ncase, 300)
    res.count("functions_with_statuses", nf, 150)
    res.count("statuses_followed_to_a_use", nv, 60)
    res.rule("C20.success/meaning/table: for every enumerator (and for every other value) the translator's result, on all its paths, is the one definite status of a frozen table, success only for success; "
             "C20.text: every public error code has a text, different from the others; C20.layer: no status returned by one layer's function is returned or passed on, untranslated, as another layer's status")
