"""Every value type has one representation: all code that switches on the type agrees on it."""
import re
import struct
from engine import *
from rules.c11 import lin, strip0

V = "_rbusValue"
# accessor name -> (type tag, representation in the value, number or kind)
T = {"Boolean": ("RBUS_BOOLEAN", "i8", "u"), "Char": ("RBUS_CHAR", "i8", "s"), "Byte": ("RBUS_BYTE", "i8", "u"),
     "Int8": ("RBUS_INT8", "i8", "s"), "UInt8": ("RBUS_UINT8", "i8", "u"), "Int16": ("RBUS_INT16", "i16", "s"), "UInt16": ("RBUS_UINT16", "i16", "u"),
     "Int32": ("RBUS_INT32", "i32", "s"), "UInt32": ("RBUS_UINT32", "i32", "u"), "Int64": ("RBUS_INT64", "i64", "s"), "UInt64": ("RBUS_UINT64", "i64", "u"),
     "Single": ("RBUS_SINGLE", "float", "f"), "Double": ("RBUS_DOUBLE", "double", "f"), "Time": ("RBUS_DATETIME", "time", "t"),
     "String": ("RBUS_STRING", "ptr", "b"), "Bytes": ("RBUS_BYTES", "ptr", "b"), "Property": ("RBUS_PROPERTY", "ptr", "o"), "Object": ("RBUS_OBJECT", "ptr", "o")}
NUM = [n for n in T if T[n][2] in "suf"]
BUF = ("String", "Bytes")
OWN = {"String": "rbusBuffer_Destroy", "Bytes": "rbusBuffer_Destroy", "Property": "rbusProperty_Release", "Object": "rbusObject_Release"}
W = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "float": 4, "double": 8}
ACC = re.compile(r"^rbusValue_(Init|Get|Set)(%s)(Ex)?$" % "|".join(T))
CONV = ("zext", "sext", "trunc", "sitofp", "uitofp", "fpext", "fptrunc", "fptosi", "fptoui")


def dfield(a):
    """(value object, what follows the data member) of an address inside a value's data"""
    a = strip0(a)
    if a[0] != "gep":
        return None
    for k, s in enumerate(a[2]):
        if s[0] == "f" and s[1:3] == (V, "d"):
            return mkgep(a[1], a[2][:k]), a[2][k + 1:]
    return None


def tcell(v):
    return mkgep(v, (("f", V, "type"),))


def dcell(v):
    return mkgep(v, (("f", V, "d"),))


def origin(v):
    """(source, conversions outermost first)"""
    c = []
    while v[0] == "op" and v[1].split(":")[0] in CONV:
        c.append(v[1])
        v = v[2]
    return v, c


def mentions(v, f):
    if f(v):
        return True
    if v[0] == "op":
        return mentions(v[2], f) or mentions(v[3], f)
    return False


class Trace(Client):
    """what one path does to values of known type"""
    K = 400
    KHEAD = 40
    DEPTH = 8
    MAXSTEPS = 200000
    pconv = False

    def __init__(self, w, types=(), nonnull=(), read=None, tag=None, dnull=None, bound=None):
        self.w, self.types, self.nonnull, self.read, self.tag, self.dnull = w, dict(types), nonnull, read, tag, dnull
        self.paths = []
        self.deep = 0
        self.bound = dict(bound or {})
        self.dnulls = {}

    def init_state(self, fn, st):
        for k, t in self.types.items():
            st.mem[tcell(("p", k))] = ("c", t)
            if self.dnull is not None:
                v = ("op", "d:ptr", ("p", k), ZERO)
                st.facts[v] = (0, 0, frozenset()) if self.dnull else (-INF, INF, frozenset({0}))
        for k, n in self.dnulls.items():
            st.facts[("op", "d:ptr", ("p", k), ZERO)] = (0, 0, frozenset()) if n else (-INF, INF, frozenset({0}))
        for k, n in self.bound.items():
            st.facts[("p", k)] = (n, n, frozenset())
        for k in self.nonnull:
            if k not in self.bound:
                st.facts[("p", k)] = (-INF, INF, frozenset({0}))

    def ev(self, st, *e):
        st.ts = st.ts + (e,)

    def on_load(self, eng, st, i, a):
        for e in st.ts:
            if e[0] == "cell" and e[1] == a:
                st.regs[i.id] = e[2]
                return [st]
        d = dfield(a)
        if d is not None:
            if a in st.mem:
                st.regs[i.id] = st.mem[a]
            elif strip0(a) in st.mem:
                st.regs[i.id] = st.mem[strip0(a)]
            else:
                st.regs[i.id] = ("op", "d:" + i.ty + "".join("." + str(s[2]) for s in d[1] if s[0] == "f"), d[0], ZERO)
            return [st]
        b = strip0(a)
        if a not in st.mem and (root(a) == ("p", 1) or root(a)[0] == "al" and self.fromread(st, a)) and i.ty != "ptr":
            st.regs[i.id] = ("op", "m", a, ZERO)
            return [st]
        if b[0] == "gep" and b[2][-1][0] == "f" and b[2][-1][1] == "_rbusBuffer" and b not in st.mem and not any(e[0] == "buf" or e[0] == "call" and self.changes(e[1]) for e in st.ts):
            st.regs[i.id] = ("op", "b:" + b[2][-1][2], mkgep(b[1], b[2][:-1]), ZERO)
            return [st]

    def on_store(self, eng, st, i, a, v):
        d = dfield(a)
        if d is not None:
            self.ev(st, "d", d[0], d[1], i.vt, v, i)
            return None
        b = strip0(a)
        if b[0] == "gep" and b[2][-1][0] == "f" and b[2][-1][1:3] == (V, "type"):
            self.ev(st, "type", mkgep(b[1], b[2][:-1]), st.const(v) if st.const(v) is not None else v, i)
        elif b[0] == "gep" and b[2][-1][0] == "f" and b[2][-1][1] == "_rbusBuffer":
            self.ev(st, "buf", b, v, i)
        elif b[0] in ("p", "gep") and root(b)[0] == "p":
            self.ev(st, "out", b, v, i)

    def on_inst(self, eng, st, i, vals):
        v = vals[0] if vals else None
        if i.op in CONV and v is not None and mentions(v, lambda x: self.pconv and x == ("p", 1) or x[0] == "op" and (x[1][:2] in ("d:", "g:", "w:") or x[1] == "m")):
            return ("op", i.op + ":" + i.ty, v, ZERO) if depth(v) < 10 else None
        if i.op == "fcmp" and len(vals) == 2:
            return ("op", "fcmp " + str(i.pred), vals[0], vals[1])
        if i.op in CASTS:
            return None

    def on_branch(self, eng, st, i, cond):
        if i.op == "br":
            st.ts = st.ts + (("cond", i, cond),)

    def ts_live(self, ts):
        return [x for e in ts if e[0] == "call" and e[1].startswith("rbusValue_Set") for x in e[2]]

    def on_select(self, eng, st, i, cond, truth):
        st.ts = st.ts + (("sel", cond, truth),)

    def on_call(self, eng, st, i, args):
        n = i.callee_full or ""
        if n.startswith("llvm.") and not n.startswith("llvm.mem"):
            return None
        g = self.w.m.funcs.get(n)
        if g is not None and not g.decl and self.deep < 3 and not g.name.startswith("rtLog") and self.helper(g):
            return self.splice(eng, st, i, g, args)
        # what is read from memory handed over, before the call
        pt = tuple(st.mem.get(a) if a[0] in ("al", "gep") and a in st.mem else None for a in args)
        self.ev(st, "call", n, tuple(st_const(st, a) for a in args), pt, i, ("v", i.id, 0))
        if n.startswith("llvm.memcpy") or n in ("memcpy", "memmove"):
            d = dfield(args[0])
            if d is not None:
                self.ev(st, "d", d[0], d[1], ("bytes", st.const(args[2]) if st.const(args[2]) is not None else args[2]), ("op", "at", args[1], ZERO), i)
        return None

    def changes(self, n):
        g = self.w.m.funcs.get(n)
        return g is None or not g.decl and ("_rbusBuffer", "posWrite") in map(tuple, (x for x in self.w.modset(n) if not isinstance(x, str)))

    def helper(self, g):
        """internal to the file the values are implemented in: its effects are those of its caller"""
        if len(g.argtypes) == 1 and g.argtypes[0] in ("float", "double") and g.file.endswith("rbus_buffer.c"):
            return True
        return g.dname not in self.w.api and any(t == "rbusValue_t" for t in g.dtypes[1:]) and (
            g.file.endswith("rbus_value.c") or g.internal and not re.search("Message", g.dname))

    def splice(self, eng, st, i, g, args):
        c = Trace(self.w, {k: st.const(st.mem[tcell(a)]) for k, a in enumerate(args) if tcell(a) in st.mem and st.const(st.mem[tcell(a)]) is not None},
                  [k for k, a in enumerate(args) if st.isnull(a) is False])
        c.deep, c.read = self.deep + 1, self.read
        c.bound = {}
        for k, a in enumerate(args):
            if st.const(a) is not None:
                c.bound[k] = st.const(a)
            d = ("op", "d:ptr", a, ZERO)
            if st.isnull(d) is not None or dcell(a) in st.mem and st.isnull(st.mem[dcell(a)]) is not None:
                c.dnulls[k] = st.isnull(st.mem[dcell(a)] if dcell(a) in st.mem else d)
        e = Engine(self.w, g, c).run()
        if e.over:
            raise RuntimeError("too many paths in " + g.name)
        ren = [(("p", k), ("P", k)) for k in range(len(args))] + [(("P", k), a) for k, a in enumerate(args)]

        def tr(x):
            for a, b in ren:
                x = subst_ts(x, a, b) if isinstance(x, tuple) and x and x[0] not in ("gep", "op", "p", "P") else (subst(x, a, b) if isinstance(x, tuple) and x else x)
            return x
        out = []
        for p in c.paths:
            s = st.copy()
            for ev in p.ev:
                s.ts = s.ts + (tuple(tr(x) if isinstance(x, tuple) else x for x in ev),)
            for k, v in p.st.mem.items():
                if root(k)[0] == "p":
                    s.mem[tr(k)] = tr(v)
            if i.ty and p.val is not None:
                s.regs[i.id] = ("c", p.c) if p.c is not None else tr(p.val)
            out.append(s)
        return out

    def after_call(self, eng, st, i, args):
        n = i.callee_full or ""
        for k, t in self.types.items():
            if ("p", k) not in args and not [e for e in st.ts if e[0] == "type" and e[1] == ("p", k)]:
                st.mem[tcell(("p", k))] = ("c", t)
        t = self.typeof(st, args[0]) if args else None
        h = NUMS.get(t)
        if n == "rbusValue_GetType" and t is not None:
            st.regs[i.id] = ("c", t)
        elif n == "rbusValue_GetL" and t is not None and h not in BUF:
            st.regs[i.id] = ("c", W.get(T[h][1], TSIZE[0] if h == "Time" else 0) if h else 0)
        elif ACC.match(n) and ACC.match(n).group(1) == "Get" and i.id in st.regs and not ACC.match(n).group(3):
            a = ACC.match(n).group(2)
            if t is not None and a != h and not (a in BUF and h in BUF):
                if a not in BUF:
                    return []
                st.regs[i.id] = ZERO
            else:
                st.regs[i.id] = ("op", "g:" + a, args[0], ZERO)
        elif n in SWAPN and i.id in st.regs:
            st.regs[i.id] = ("op", "w:" + n, args[0], ZERO)
        if self.read is not None:
            return self.read(self, eng, st, i, n, args)

    def fromread(self, st, a):
        """memory a read filled"""
        return any(e[0] == "call" and e[1].startswith("rbusBuffer_Read") and any(root(x) == root(a) for x in e[2]) for e in st.ts)

    def typeof(self, st, v):
        for e in reversed(st.ts):
            if e[0] == "vt" and e[1] == v:
                return e[2]
        k = tcell(v)
        if k in st.mem:
            return st.const(st.mem[k])
        return self.types.get(v[1]) if v[0] == "p" else None

    def on_ret(self, eng, st, i, val):
        self.paths.append(Path(st.ts, val, st.const(val) if val is not None else None, st, i))


def st_const(st, a):
    c = st.const(a)
    return ("c", c) if c is not None else a


class Path:
    def __init__(self, ev, val, c, st, i):
        self.ev, self.val, self.c, self.st, self.i = ev, val, c, st, i

    def calls(self, pat=None):
        return [e for e in self.ev if e[0] == "call" and (pat is None or re.match(pat, e[1]))]

    def of(self, kind):
        return [e for e in self.ev if e[0] == kind]


SWAPN = ()
NUMS = {}
TSIZE = [0]


def path(a):
    return tuple(s[2] for s in a[2] if s[0] == "f") if a[0] == "gep" else ()


def lin_addr(a):
    """terms added to a base pointer"""
    o = {}
    if a[0] == "gep":
        for s in a[2]:
            if s[0] == "i":
                lin(s[1], 1, o)
    return list(o)


def status(t, eng, st, i, n, args):
    """the result of a read: both outcomes"""
    if n == "rbusBuffer_Read" and i.id in st.regs:
        out = []
        for r in (0, -1):
            s = st.copy()
            s.regs[i.id] = ("c", r)
            s.ts = s.ts + (("read", r),)
            out.append(s)
        return out


def reader(num):
    """the first number read from the buffer is the tag, the second the length; a typed read has both outcomes"""
    def f(t, eng, st, i, n, args):
        m = re.match("rbusBuffer_Read", n)
        if not m or len(args) != 2 or i.id not in st.regs:
            if n == "rbusValue_Init" and i.id in st.regs and args:
                v = ("v", "value", 0)
                st.facts[v] = (-INF, INF, frozenset({0}))
                st.mem[args[0]] = v
                st.regs[i.id] = v
            return None
        k = len([e for e in st.ts if e[0] in ("tag", "length")])
        if k == 0:
            s = st.copy()
            s.regs[i.id] = ZERO
            s.mem[args[1]] = ("c", num)
            s.ts = s.ts + (("tag", num),)
            return [s]
        if k == 1:
            s = st.copy()
            s.regs[i.id] = ZERO
            v = ("v", "length", 0)
            s.facts[v] = (0, 65535, frozenset())
            s.mem[args[1]] = v
            s.ts = s.ts + (("length", v),)
            return [s]
        out = []
        for r in (0, -1):
            s = st.copy()
            s.regs[i.id] = ("c", r)
            s.ts = s.ts + (("get", n, args[1], r),)
            out.append(s)
        return out
    return f


def root_value(x):
    """the value object a buffer field comes from"""
    while x[0] == "op" and (x[1][:2] in ("b:", "d:", "g:")):
        x = x[2]
    return x


def held(x, n):
    """the value whose content of type n x is"""
    if x[0] == "op" and (x[1] == "d:ptr" and T[n][1] == "ptr" or x[1] == "g:" + n):
        return x[2]
    if n in BUF and x[0] == "op" and x[1] == "b:data":
        return root_value(x)
    if n == "Time":
        return timeof(x)
    return None


def timeof(x):
    d = dfield(x)
    if d is not None and not d[1]:
        return d[0]
    if x[0] == "op" and x[1] == "g:Time":
        return x[2]
    return None


def same_object(p):
    """the path is taken only when source and destination are one object"""
    return any(c[0] == "op" and {c[2], c[3]} == {("p", 0), ("p", 1)} and (c[1], truth) in (("icmp eq", True), ("icmp ne", False)) for c, truth in decisions(p))


def samples(n):
    """pairs of values at the ends of the type and around its precision"""
    k = T[n]
    if k[2] == "f":
        if n == "Double":
            return [(0.1, 1e300), (1e300, 0.1), (0.1, 0.1), (-0.1, 0.1), (0.1, 0.1 + 2.0 ** -50), (0.1 + 2.0 ** -50, 0.1)]
        return [(1.0, 2.0), (2.0, 1.0), (1.5, 1.5), (-1.0, 1.0), (1.0, -1.0), (-2.0, -1.0), (1.25, 1.5)]
    if n == "Boolean":
        return [(0, 1), (1, 0), (1, 1), (0, 0)]
    b = 8 * W[k[1]]
    lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if k[2] == "s" else (0, (1 << b) - 1)
    v = sorted({lo, lo + 1, 0, 1, hi - 1, hi} | ({(1 << 53) + 1, 1 << 32} if b == 64 else set()))
    return [(x, y) for x in v for y in v]


def evalv(v, env, n=None):
    """a value of the path for given contents; None when it depends on something else"""
    if v is None:
        return None
    if v in env:
        return env[v]
    if v[0] == "c" or v[0] == "fp" and v[1] in (0, "0", 0.0):
        return v[1] if v[0] == "c" else 0.0
    if v[0] != "op":
        return None
    if v[1].startswith("d:") or v[1].startswith("g:"):
        if v[2][0] == "p" and v[2][1] in env and n is not None and v[1] in ("d:" + T[n][1], "g:" + n):
            x = env[v[2][1]]
            if v[1][0] == "d" and T[n][2] == "s" and x < 0:
                return x & ((1 << 8 * W[T[n][1]]) - 1)       # as the bits in memory
            return x & ((1 << 8 * W[T[n][1]]) - 1) if T[n][2] in "su" else x
        return None
    if v[1] == "b:posWrite":
        return env.get(("len", root_value(v)[1]))
    op = v[1].split(":")[0]
    a = evalv(v[2], env, n)
    if a is None:
        return None
    if op in CONV:
        return convert(op, v[1].split(":")[1], a, width_of(v[2], n))
    b = evalv(v[3], env, n)
    if b is None:
        return None
    if v[1] == "not":
        return int(not a)
    if v[1].startswith("icmp "):
        return icmp(v[1][5:], a, b, max(width_of(v[2], n), width_of(v[3], n)))
    if v[1].startswith("fcmp "):
        return {"oeq": a == b, "olt": a < b, "ogt": a > b, "ole": a <= b, "oge": a >= b, "one": a != b, "une": a != b, "ueq": a == b, "ult": a < b, "ugt": a > b, "ule": a <= b, "uge": a >= b}.get(v[1][5:])
    return {"add": a + b, "sub": a - b, "mul": a * b}.get(v[1])


def width_of(v, n):
    if v[0] == "op":
        if v[1].split(":")[0] in CONV:
            t = v[1].split(":")[1]
            return int(t[1:]) if t[0] == "i" else 64
        if v[1][:3] in ("d:i", "w:i"):
            return int(v[1][3:])
        if v[1].startswith("g:") and n is not None and T[n][1][0] == "i":
            return 1 if n == "Boolean" else 8 * W[T[n][1]]
    return 32


def signed(x, b):
    x &= (1 << b) - 1
    return x - (1 << b) if b > 1 and x >> (b - 1) else x


def convert(op, ty, a, w):
    if op == "zext":
        return int(a) & ((1 << w) - 1)
    if op in ("sext", "sitofp"):
        x = signed(int(a), w)
        return x & ((1 << int(ty[1:])) - 1) if op == "sext" else float(x)
    if op == "uitofp":
        return float(int(a) & ((1 << w) - 1))
    if op == "trunc":
        return int(a) & ((1 << int(ty[1:])) - 1)
    if op == "fptrunc" and ty == "float":
        try:
            return struct.unpack("f", struct.pack("f", a))[0]
        except OverflowError:
            return float("inf")
    if op in ("fpext", "fptrunc"):
        return a
    return int(a)


def icmp(p, a, b, w):
    if isinstance(a, float) or isinstance(b, float):
        return None
    if p[0] == "s":
        a, b = signed(a, w), signed(b, w)
    elif p[0] == "u":
        a, b = a & ((1 << w) - 1), b & ((1 << w) - 1)
    else:
        a, b = a & ((1 << w) - 1), b & ((1 << w) - 1)
    return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p if p in ("eq", "ne") else p[1:]]


def decisions(p):
    """the conditions of a path with the way each went"""
    cs = {e[1]: e[2] for e in p.ev if e[0] == "cond"}
    t, out = p.st.trail, [e[1:] for e in p.ev if e[0] == "sel"]
    while t:
        i, truth, t = t
        if i in cs and truth in (True, False):
            out.append((cs[i], truth))
    return out


def decide(p, env, n):
    """True: the path is taken for these contents, False: it is not, None: it depends on something else of the values"""
    for c, truth in decisions(p):
        if not mentions(c, lambda x: x[0] == "op" and x[1][:2] in ("d:", "g:") and x[1] not in ("d:ptr",)):
            continue
        r = evalv(c, env, n)
        if r is None:
            return None
        if bool(r) != truth:
            return False
    return True


def consistent(p, env):
    for c, truth in decisions(p):
        r = evalv(c, env)
        if r is not None and bool(r) != truth:
            return False
    return True


class R:
    def __init__(self, w, res):
        self.w, self.m, self.res = w, w.m, res
        self.en = dict(w.m.enums["rbusValueType_t"])
        self.num = {n: self.en[T[n][0]] for n in T}
        self.name = {v: n for n, v in self.num.items()}
        NUMS.update(self.name)
        TSIZE[0] = self.tsize = next(f[3] for f in w.m.structs[V] if f[0] == "d")
        self.none = self.en["RBUS_NONE"]
        self.n = {}

    def fn(self, name):
        f = self.m.fn(name)
        if f is None or f.decl:
            raise RuntimeError("no function " + name)
        return f

    def paths(self, f, pconv=False, **k):
        c = Trace(self.w, **k)
        c.pconv = pconv
        e = Engine(self.w, f, c).run()
        if e.over:
            raise RuntimeError("too many paths in " + f.name)
        return c.paths

    def count(self, what):
        self.n[what] = self.n.get(what, 0) + 1

    def bad(self, rule, f, t, text, i=None, st=None):
        self.res.add("C10." + rule, f.dname, t, (i.where() if i is not None else "%s:%d (%s)" % (f.file, f.line0, f.dname)), text, trail_text(st, 6) if st is not None else "")

    # ---- accessors
    def conv_ok(self, v, n):
        """v is the whole of what the value holds as type n"""
        src, c = origin(v)
        if not (src[0] == "op" and src[1] == "d:" + T[n][1]):
            return False
        # a bool is a byte in memory and a bit in a register
        return all(x in ("trunc:i1", "zext:i8") for x in c) and n == "Boolean" or not c

    def setters(self):
        for n in T:
            f = self.fn("rbusValue_Set" + n)
            for old in T:
                if old not in OWN and old != "Int32":
                    continue
                for p in self.paths(f, types={0: self.num[old]}, nonnull=(0, 1), dnull=False):
                    self.setter(f, n, old, p)
            self.count("accessors")

    def setter(self, f, n, old, p):
        v = ("p", 0)
        ty = [e[2] for e in p.of("type") if e[1] == v]
        ds = [e for e in p.of("d") if e[1] == v and not (T[n][1] != "ptr" and e[4] == ZERO and e[3] == "ptr")]
        w, kind = T[n][1], T[n][2]
        cur = ty[-1] if ty else self.num[old]
        if cur != self.num[n]:
            self.bad("tag-stored", f, n, "a value set as %s is left with the type %s" % (T[n][0], cur), p.i, p.st)
        if kind in "suft":
            last = ds[-1] if ds else None
            ok = last is not None and last[2] == () and (last[3] == w and origin(last[4])[0] == ("p", 1) and not [c for c in origin(last[4])[1] if c not in ("zext:i8",)]
                                                        or w == "time" and last[3] == ("bytes", self.tsize) and last[4] == ("op", "at", ("p", 1), ZERO))
            if not ok:
                self.bad("whole-stored", f, n, "a value set as %s does not store its argument as %s into the value" % (T[n][0], w), p.i, p.st)
        elif kind == "o":
            last = ds[-1] if ds else None
            if last is None or last[4] != ("p", 1):
                self.bad("whole-stored", f, n, "a value set as %s does not store its argument" % T[n][0], p.i, p.st)
        # what was held before is given back before it is overwritten
        if old in OWN:
            k0 = min([k for k, e in enumerate(p.ev) if e[0] == "d" and e[1] == v] or [len(p.ev)])
            rel = [k for k, e in enumerate(p.ev) if e[0] == "call" and e[1] == OWN[old] and e[2] and origin(e[2][0])[0][:2] == ("op", "d:ptr")]
            keep = kind == "b" and old in BUF and not [e for e in p.of("d") if e[1] == v]
            if not keep and not [k for k in rel if k < k0]:
                self.bad("old-content-released", f, old, "setting a value which holds %s as %s does not give back what it held" % (T[old][0], T[n][0]), p.i, p.st)

    def getters(self):
        for n in T:
            for suffix in ("", "Ex"):
                f = self.fn("rbusValue_Get" + n + suffix)
                for h in list(T) + ["none"]:
                    num = self.num.get(h, self.none)
                    same = h == n or h in BUF and n in BUF
                    ps = self.paths(f, types={0: num}, nonnull=(0, 1) if suffix else (0,), dnull=False)
                    if h in BUF and n in BUF:
                        ps += self.paths(f, types={0: num}, nonnull=(0, 1) if suffix else (0,), dnull=True)
                    for p in ps:
                        self.getter(f, n, suffix, h, same, p)
                    if same and not ps:
                        self.bad("typed-read", f, n, "a value of type %s cannot be read as that type" % T[n][0])
                self.count("accessors")

    def getter(self, f, n, ex, h, same, p):
        if not ex:
            if not same and not (n in BUF and p.c == 0):
                self.bad("typed-read", f, n, "a value of another type (%s) is returned as %s" % (h, T[n][0]), p.i, p.st)
            elif same and n not in BUF:
                v = p.val
                if T[n][1] == "time":
                    ok = v == dcell(("p", 0)) or dfield(v) == (("p", 0), ())
                else:
                    ok = v is not None and self.conv_ok(v, n)
                if not ok:
                    self.bad("whole-read", f, n, "reading a value of type %s does not return all of it as %s" % (T[n][0], T[n][1]), p.i, p.st)
            return
        out = [e for e in p.of("out") if e[1] == ("p", 1)]
        if not same:
            if p.c == 0 or p.c is None:
                self.bad("typed-read", f, n, "reading a value which holds %s as %s succeeds" % (h, T[n][0]), p.i, p.st)
            if out:
                self.bad("typed-read", f, n, "a refused read of a value as %s still delivers it" % T[n][0], p.i, p.st)
            return
        if p.c != 0:
            self.bad("typed-read", f, n, "reading a value of type %s as that type fails" % T[n][0], p.i, p.st)
        elif n not in BUF:
            v = out[-1][2] if out else None
            ok = v is not None and (self.conv_ok(v, n) if T[n][1] != "time" else dfield(v) == (("p", 0), ()))
            if not ok:
                self.bad("whole-read", f, n, "reading a value of type %s does not deliver all of it as %s" % (T[n][0], T[n][1]), p.i, p.st)
        elif not out:
            self.bad("whole-read", f, n, "reading a value of type %s delivers nothing" % T[n][0], p.i, p.st)

    def raw(self):
        """length and address of the raw data, and setting a value from them"""
        f, g = self.fn("rbusValue_GetL"), self.fn("rbusValue_GetV")
        for n in NUM + ["Time"]:
            width = W.get(T[n][1], self.tsize)
            for p in self.paths(f, types={0: self.num[n]}, nonnull=(0,)):
                if p.c != width:
                    self.bad("length-of-type", f, n, "the length given for %s is not %d" % (T[n][0], width), p.i, p.st)
            for p in self.paths(g, types={0: self.num[n]}, nonnull=(0,)):
                if p.val is None or dfield(p.val) != (("p", 0), ()):
                    self.bad("data-of-type", g, n, "the data given for %s is not the value's" % T[n][0], p.i, p.st)
            self.count("raw_forms")
        for n in BUF:
            for p in self.paths(f, types={0: self.num[n]}, nonnull=(0,), dnull=False):
                if not (p.val and mentions(p.val, lambda x: True) and self.buffield(p.val, "posWrite")):
                    self.bad("length-of-type", f, n, "the length given for %s is not that of its buffer" % T[n][0], p.i, p.st)
            for p in self.paths(g, types={0: self.num[n]}, nonnull=(0,), dnull=False):
                if not (p.val and self.buffield(p.val, "data")):
                    self.bad("data-of-type", g, n, "the data given for %s is not its buffer's" % T[n][0], p.i, p.st)
        self.tlv()

    def buffield(self, v, field):
        return v[0] == "op" and v[1].startswith("b:" + field)

    def tlv(self):
        f = self.fn("rbusValue_SetTLV")
        for h in ("Int32", "String"):
            for n in NUM + ["Time"] + list(BUF) + ["none", "?"]:
                num = self.num.get(n, self.none if n == "none" else 77)
                for p in self.paths(f, types={0: self.num[h]}, nonnull=(0, 3), dnull=False, bound={1: num}):
                    ty = [e[2] for e in p.of("type") if e[1] == ("p", 0)]
                    ds = [e for e in p.of("d") if e[1] == ("p", 0) and e[3] != "ptr"]
                    st = p.st
                    if n in BUF:
                        cs = p.calls("rbusValue_Set(String|Bytes)$")
                        want = "rbusValue_Set" + n
                        if ds or ty or [e for e in cs if e[1] != want] or len(cs) > 1:
                            self.bad("raw-data-stored", f, n, "raw data of type %s is stored otherwise than with %s" % (T[n][0], want), p.i, st)
                        continue
                    width = W.get(T[n][1], self.tsize) if n in T else None
                    stored = [e for e in ds if isinstance(e[3], tuple)]
                    if ty and (not stored or ty[-1] != num or n not in T):
                        self.bad("raw-data-stored", f, n, "raw data is stored under the type %s" % ty[-1], p.i, st)
                    for e in stored:
                        k = e[3][1]
                        lo, hi = (k, k) if isinstance(k, int) else st.rng(k)
                        if (lo, hi) != (width, width) or e[2] != () or e[4] != ("op", "at", ("p", 3), ZERO):
                            self.bad("raw-data-stored", f, n, "raw data of type %s is copied without being of the length of this type" % n, e[-1], st)
                        if not ty:
                            self.bad("raw-data-stored", f, n, "raw data of type %s is stored without that type" % n, e[-1], st)
                self.count("raw_forms")

    # ---- stored form
    def swapped(self, f):
        """byte order conversions a primitive performs, in the functions it calls for that too"""
        n = [i.callee_full for i in f.insts() if i.op == "call" and (i.callee_full or "").startswith("llvm.bswap")]
        for i in f.insts():
            g = self.m.funcs.get(i.callee_full or "") if i.op == "call" else None
            if g is not None and not g.decl and re.search("LittleTo|ToLittle", g.dname):
                n += self.swapped(g)
        return sorted(n)

    def primitives(self):
        """what each primitive writes: tag, length, and where the bytes come from; what each reads"""
        self.wr, self.rd = {}, {}
        m = self.m
        for f in m.defined():
            if not f.dname.startswith("rbusBuffer_") or f.dname in ("rbusBuffer_Write", "rbusBuffer_Read", "rbusBuffer_WriteTypeLengthValue"):
                continue
            w = [i for i in f.insts() if i.op == "call" and i.callee_name == "rbusBuffer_WriteTypeLengthValue"]
            if w:
                for p in self.paths(f, nonnull=(0, 1), pconv=True):
                    e = p.calls("rbusBuffer_WriteTypeLengthValue")
                    if len(e) == 1:
                        self.wr[f.dname] = (e[0][2][1], e[0][2][2], self.source(f, p, e[0][2][3], p.st.const(e[0][2][2])), self.swapped(f), p)
                    else:
                        self.bad("primitive", f, f.dname, "a primitive does not write exactly one tagged value", p.i, p.st)
            r = [i for i in f.insts() if i.op == "call" and i.callee_name == "rbusBuffer_Read"]
            if r and len(f.argtypes) == 2:
                for p in self.paths(f, nonnull=(0, 1), read=status):
                    e = p.calls("rbusBuffer_Read$")
                    if len(e) != 1:
                        self.bad("primitive", f, f.dname, "a primitive does not read exactly once", p.i, p.st)
                        continue
                    ok = [x for x in p.ev if x[0] == "read"] == [("read", 0)]
                    dst = self.dest(f, p, e[0][2][1], p.st.const(e[0][2][2]))
                    if ok:
                        self.rd[f.dname] = (e[0][2][2], dst, self.swapped(f), p)
                        if p.c != 0:
                            self.bad("primitive", f, f.dname, "a value which was read is reported as not read", p.i, p.st)
                    elif p.c == 0:
                        self.bad("primitive", f, f.dname, "a value which could not be read is reported as read", p.i, p.st)

    def narrow(self, v):
        """the smallest width the value goes through"""
        w, v = 1 << 20, v
        while v[0] == "op":
            if v[1].split(":")[0] in CONV:
                t = v[1].split(":")[1]
                w = min(w, {"float": 32, "double": 64}.get(t) or int(t[1:]))
            elif not (v[1][:2] == "w:" or v[1] == "icmp ne" and v[3] == ZERO):
                break
            v = v[2]
        return w

    def source(self, f, p, a, n=None):
        """which bytes of the argument the written bytes are: 'arg', 'value' or a map of offsets"""
        if a == ("p", 1):
            return "arg"
        if root(a)[0] != "al":
            return None
        v = p.st.mem.get(a)
        if v is not None and origin(self.plain(v))[0] == ("p", 1):
            return "value" if self.narrow(v) >= 8 * (n or 0) or n == 1 else None
        return self.fieldmap(p, lambda k: root(k) == root(a) and a == root(a), lambda v: v)

    def plain(self, v):
        """without the byte order conversion"""
        v = origin(v)[0]
        while v[0] == "op" and (v[1][:2] == "w:" or v[1] == "icmp ne" and v[3] == ZERO):
            v = origin(v[2])[0]
        return v

    def fieldmap(self, p, mine, f):
        out = {}
        for k, v in p.st.mem.items():
            if mine(k) and k[0] == "gep":
                v = self.plain(v)
                if v[0] == "op" and v[1] == "m":
                    out[path(k)] = path(v[2])
                else:
                    out[path(k)] = None
        return out

    def dest(self, f, p, a, n=None):
        if a == ("p", 1):
            return "arg"
        o = [e for e in p.of("out") if root(e[1]) == ("p", 1)]
        if len(o) == 1 and o[0][1] == ("p", 1):
            v = self.plain(o[0][2])
            if v[0] == "op" and v[1] == "m" and v[2] == a and (self.narrow(o[0][2]) >= 8 * (n or 0) or n == 1):
                return "value"
            return None
        out = {}
        for e in o:
            v = self.plain(e[2])
            out[path(e[1])] = path(v[2]) if v[0] == "op" and v[1] == "m" and root(v[2]) == root(a) else None
        return out

    def codec(self):
        enc, dec = self.fn("rbusValue_Encode"), self.fn("rbusValue_Decode")
        self.primitives()
        tf = self.timefields()
        for n in [x for x in T if x not in ("Property", "Object")]:
            num = self.num[n]
            width = W.get(T[n][1], self.tsize)
            ws, rs = set(), set()
            for p in self.paths(enc, types={0: num}, nonnull=(0, 1), dnull=False):
                cs = p.calls("rbusBuffer_Write")
                wr = self.wr.get(cs[0][1]) if len(cs) == 1 else None
                if wr is None and len(cs) == 1 and cs[0][1] == "rbusBuffer_WriteTypeLengthValue":
                    wr = (cs[0][2][1], cs[0][2][2], "arg", [], p)
                if wr is None:
                    self.bad("stored-form", enc, n, "a value of type %s is not stored by exactly one tagged value" % T[n][0], p.i, p.st)
                    continue
                a = cs[0][2]
                if wr[0] != ("c", num):
                    self.bad("stored-form", enc, n, "a value of type %s is stored under the tag %s" % (T[n][0], wr[0][1]), cs[0][4], p.st)
                if n in BUF:
                    if not (self.buffield(a[1], "data") and self.buffield(a[2], "posWrite") and wr[1] == ("p", 2) and wr[2] == "arg"):
                        self.bad("stored-form", enc, n, "a value of type %s is not stored with all of its buffer" % T[n][0], cs[0][4], p.st)
                    continue
                if wr[1] != ("c", width):
                    self.bad("stored-form", enc, n, "a value of type %s is stored with a length of %s instead of %d" % (T[n][0], wr[1][1], width), cs[0][4], p.st)
                if n == "Time":
                    if dfield(a[1]) != (("p", 0), ()) or not (isinstance(wr[2], dict) and {k: wr[2].get(k) for k in tf} == {k: k for k in tf}):
                        self.bad("stored-form", enc, n, "a time is not stored field by field: %s" % self.diff(wr[2], tf), cs[0][4], p.st)
                elif wr[2] != "value" or not self.conv_ok(a[1], n):
                    self.bad("stored-form", enc, n, "a value of type %s is not stored as the %s it holds" % (T[n][0], T[n][1]), cs[0][4], p.st)
                ws.add(tuple(wr[3]))
            for p in self.decodes(dec, num):
                if p.c is None or p.c >= 0:
                    self.decoded(dec, n, num, width, p, rs, tf)
            if not [p for p in self.decodes(dec, num) if p.c is None or p.c >= 0]:
                self.bad("stored-form", dec, n, "a stored value of type %s cannot be read" % T[n][0])
            if n not in BUF and ws and rs and ws != rs:
                self.bad("byte-order", dec, n, "values of type %s are written with byte order conversions %s and read with %s" % (T[n][0], sorted(ws), sorted(rs)))
            self.count("stored_forms")
        for num in (0, 77, self.num["Object"], self.num["Property"], self.none + 1, 0xffff):
            for p in self.decodes(dec, num):
                if p.c is None or p.c >= 0:
                    self.bad("unknown-type", dec, str(num), "a stored value of unknown type %d is accepted" % num, p.i, p.st)

    def diff(self, got, tf):
        if not isinstance(got, dict):
            return "it is not copied by field"
        return ", ".join("%s from %s" % (".".join(k), ".".join(got.get(k) or ("nothing",))) for k in sorted(tf) if got.get(k) != k)[:120]

    def timefields(self):
        out = set()
        def walk(s, pre):
            for f in self.m.structs[s]:
                if f[1].startswith("%") and f[1][1:] in self.m.structs:
                    walk(f[1][1:], pre + (f[0],))
                else:
                    out.add(pre + (f[0],))
        walk("_rbusDateTime", ())
        if len(out) < 12:
            raise RuntimeError("fields of a time not found")
        return out

    def decodes(self, dec, num):
        c = Trace(self.w, nonnull=(0, 1), read=reader(num))
        e = Engine(self.w, dec, c).run()
        if e.over:
            raise RuntimeError("too many paths in " + dec.name)
        return c.paths

    def decoded(self, dec, n, num, width, p, rs, tf):
        ty = [e for e in p.of("type")]
        st = p.st
        if n in BUF:
            cs = p.calls("rbusValue_Set")
            if len(cs) != 1 or cs[0][1] != "rbusValue_Set" + n:
                self.bad("stored-form", dec, n, "stored data of type %s is not read as that type" % T[n][0], p.i, st)
                return
            a = cs[0][2]
            if a[1] == ZERO:
                return
            ln = [e[1] for e in p.ev if e[0] == "length"]
            pos = [e for e in p.of("buf") if lastfield(e[1]) == ("_rbusBuffer", "posRead")]
            adv = lin(pos[-1][2]) if pos else {}
            okp = bool(ln) and adv.get(ln[0]) == 1 and sorted(adv.values()) == [1, 1]
            okv = [x for x in lin_addr(a[1]) if x[0] == "v" or x[0] == "op"] and (n == "String" or len(a) > 2 and bool(ln) and lin(a[2]) == {ln[0]: 1})
            if not okp or not okv:
                self.bad("stored-form", dec, n, "stored data of type %s is not read with the length stored with it" % T[n][0], cs[0][4], st)
            return
        cs = [e for e in p.ev if e[0] == "get"]
        if len(cs) != 1 or cs[0][1] not in self.rd:
            self.bad("stored-form", dec, n, "stored data of type %s is not read by one primitive" % T[n][0], p.i, st)
            return
        rd = self.rd[cs[0][1]]
        if cs[0][3] != 0:
            self.bad("stored-form", dec, n, "stored data of type %s which could not be read is accepted" % T[n][0], p.i, st)
        if rd[0] != ("c", width):
            self.bad("stored-form", dec, n, "stored data of type %s is read with a length of %s instead of %d" % (T[n][0], rd[0][1], width), p.i, st)
        d = dfield(cs[0][2])
        if d is None or d[1]:
            self.bad("stored-form", dec, n, "stored data of type %s is not read into the value" % T[n][0], p.i, st)
        if not ty or ty[-1][2] != num:
            self.bad("tag-stored", dec, n, "stored data of type %s is read under another type" % T[n][0], p.i, st)
        if n == "Time":
            if not (rd[1] == "arg" or isinstance(rd[1], dict) and {k: rd[1].get(k) for k in tf} == {k: k for k in tf}):
                self.bad("stored-form", dec, n, "a stored time is not read field by field: %s" % self.diff(rd[1], tf), p.i, st)
        elif rd[1] not in ("arg", "value"):
            self.bad("stored-form", dec, n, "stored data of type %s is not delivered as it was read" % T[n][0], p.i, st)
        rs.add(tuple(rd[2]))

    # ---- comparison
    def compare(self):
        f = self.fn("rbusValue_Compare")
        for n in NUM:
            num = self.num[n]
            ps = self.paths(f, types={0: num, 1: num}, nonnull=(0, 1))
            for a, b in samples(n):
                hit = 0
                for p in ps:
                    if a != b and same_object(p):
                        continue
                    r = decide(p, {0: a, 1: b}, n)
                    if r is False:
                        continue
                    if r is None:
                        self.bad("compare-whole", f, n, "two values of type %s are not compared by what they hold as that type" % T[n][0], p.i, p.st)
                        break
                    hit += 1
                    want = (a > b) - (a < b)
                    if p.c is None or (p.c > 0) - (p.c < 0) != want:
                        self.bad("compare-whole", f, n, "two values of type %s which are %s compare as %s" % (T[n][0], {0: "equal", 1: "greater", -1: "less"}[want], p.c), p.i, p.st)
                        break
            self.count("comparisons")
        D = {}
        for n in BUF:
            num = self.num[n]
            ps = self.paths(f, types={0: num, 1: num}, nonnull=(0, 1), dnull=False)
            call = "strcmp" if n == "String" else "memcmp"
            for p in ps:
                if same_object(p) and p.c == 0:
                    continue
                cs = p.calls(call + "$")
                d = [cs and self.buffield(x, "data") and root_value(x) for x in (cs[0][2][:2] if cs else ())]
                if len(cs) != 1 or sorted(map(str, d)) != ["('p', 0)", "('p', 1)"]:
                    self.bad("compare-whole", f, n, "two values of type %s are not compared by their data" % T[n][0], p.i, p.st)
                    continue
                sign = 1 if d[0] == ("p", 0) else -1
                if n == "String":
                    if p.val != cs[0][5]:
                        self.bad("compare-whole", f, n, "the result of comparing two strings is changed", p.i, p.st)
                    continue
                ln = cs[0][2][2]
                for l1 in (3, 4, 5):
                    for c in (-1, 0, 1):
                        env = {("len", 0): l1, ("len", 1): 4, cs[0][5]: c * sign}
                        if not consistent(p, env):
                            continue
                        want = c or (l1 > 4) - (l1 < 4)
                        got = evalv(p.val, env)
                        k = evalv(ln, env)
                        if k is None or k != min(l1, 4):
                            self.bad("compare-whole", f, n, "two byte arrays are not compared over the length both have", p.i, p.st)
                        if got is None or (got > 0) - (got < 0) != want:
                            self.bad("compare-whole", f, n, "two byte arrays of %d and 4 bytes compare as %s" % (l1, got), p.i, p.st)
            self.count("comparisons")
        num = self.num["Time"]
        for p in self.paths(f, types={0: num, 1: num}, nonnull=(0, 1)):
            if same_object(p) and p.c == 0:
                continue
            mc = [e for e in p.calls("memcmp$")]
            full = [e for e in mc if sorted(map(str, (timeof(x) for x in e[2][:2]))) == ["('p', 0)", "('p', 1)"] and e[2][2] == ("c", self.tsize)]
            if full and not consistent(p, {full[0][5]: 1}):
                if p.c != 0:
                    self.bad("compare-whole", f, "Time", "two times which are the same compare as different", p.i, p.st)
                continue
            mk = p.calls("mktime$|timegm$")
            if len(mk) < 2 or mk[0][2][0] == mk[1][2][0]:
                self.bad("compare-whole", f, "Time", "two times are compared without computing both", p.i, p.st)
                continue
            df = p.calls("difftime$")
            if df and [e[5] for e in mk[:2]] == list(df[0][2]):
                for d in (-1.0, 0.0, 1.0):
                    env = {df[0][5]: d}
                    if consistent(p, env):
                        got = evalv(p.val, env)
                        if got is None or (got > 0) - (got < 0) != (d > 0) - (d < 0):
                            self.bad("compare-whole", f, "Time", "a time which is %s compares as %s" % ({-1: "earlier", 0: "equal", 1: "later"}[d], got), p.i, p.st)
        self.count("comparisons")
        for n in ("Property", "Object"):
            num = self.num[n]
            for p in self.paths(f, types={0: num, 1: num}, nonnull=(0, 1)):
                c = p.calls("rbus%s_Compare$" % n)
                if c and (p.val != c[0][5] or [held(x, n) for x in c[0][2][:2]] != [("p", 0), ("p", 1)]):
                    self.bad("compare-whole", f, n, "two values of type %s do not compare as what they hold" % T[n][0], p.i, p.st)
            if not [p for p in self.paths(f, types={0: num, 1: num}, nonnull=(0, 1)) if p.calls("rbus%s_Compare$" % n)]:
                self.bad("compare-whole", f, n, "two values of type %s are not compared by what they hold" % T[n][0])
            self.count("comparisons")
        mixed = ["String", "Bytes", "Time", "Property", "Object", "Int32"]
        for a in mixed:
            for b in mixed:
                if a != b:
                    for p in self.paths(f, types={0: self.num[a], 1: self.num[b]}, nonnull=(0, 1)):
                        if (p.c == 0 or p.c is None) and not same_object(p):
                            self.bad("compare-types", f, a, "a value of type %s can compare as equal to one of type %s" % (T[a][0], T[b][0]), p.i, p.st)

    # ---- copying
    def copying(self):
        f = self.fn("rbusValue_Copy")
        for n in T:
            for h in list(OWN) + ["Int32"]:
                ps = [p for p in self.paths(f, types={0: self.num[h], 1: self.num[n]}, nonnull=(0, 1), dnull=False) if p.st.isnull(("op", "icmp eq", ("p", 0), ("p", 1))) is not False]
                done = 0
                for p in ps:
                    if not p.of("d") and not p.calls("rbusValue_Set") and not p.of("type"):
                        if same_object(p):
                            continue
                        self.bad("copied", f, n, "a value of type %s is not copied" % T[n][0], p.i, p.st)
                        continue
                    done += 1
                    self.copied(f, n, h, p)
                if not done:
                    self.bad("copied", f, n, "a value of type %s is not copied" % T[n][0])
            self.count("copies")

    def copied(self, f, n, h, p):
        sets = p.calls("rbusValue_Set")
        ty = [e[2] for e in p.of("type") if e[1] == ("p", 0)]
        ds = [e for e in p.of("d") if e[1] == ("p", 0) and not (e[3] == "ptr" and e[4] == ZERO)]
        st = p.st
        if sets:
            a = sets[0][2]
            if len(sets) != 1 or sets[0][1] != "rbusValue_Set" + n or a[0] != ("p", 0) or held(a[1], n) != ("p", 1):
                self.bad("copied", f, n, "a value of type %s is not copied as that type" % T[n][0], sets[0][4], st)
        else:
            whole = ds and ds[-1][3] == ("bytes", self.tsize) and dfield(ds[-1][4][2]) == (("p", 1), ()) or ds and n in T and T[n][2] in "suf" and self.conv_src(ds[-1][4], n, ("p", 1))
            if n in OWN or not whole or not ty or ty[-1] != self.num[n]:
                self.bad("copied", f, n, "a value of type %s is not copied with its type and all of its data" % T[n][0], p.i, st)
        if h in OWN:
            k0 = min([k for k, e in enumerate(p.ev) if e[0] == "d" and e[1] == ("p", 0)] or [len(p.ev)])
            rel = [k for k, e in enumerate(p.ev) if e[0] == "call" and e[1] == OWN[h] and e[2] and e[2][0] == ("op", "d:ptr", ("p", 0), ZERO) and k < k0]
            if not rel and not sets:
                self.bad("old-content-released", f, h, "copying over a value which holds %s does not give back what it held" % T[h][0], p.i, st)

    def conv_src(self, v, n, obj):
        return v[0] == "op" and v[1] == "d:" + T[n][1] and v[2] == obj

    def destroy(self):
        f = self.fn("rbusValue_Destroy")
        for n in OWN:
            for p in self.paths(f, types={0: self.num[n]}, nonnull=(0,), dnull=False):
                if not [e for e in p.calls(OWN[n] + "$") if origin(e[2][0])[0][:2] == ("op", "d:ptr")]:
                    self.bad("old-content-released", f, n, "a value which holds %s is destroyed without giving it back" % T[n][0], p.i, p.st)
            self.count("copies")
        for n in NUM:
            for p in self.paths(f, types={0: self.num[n]}, nonnull=(0,), dnull=False):
                if [e for e in p.ev if e[0] == "call" and e[1] in OWN.values()]:
                    self.bad("old-content-released", f, n, "a number is given back as if it were a pointer", p.i, p.st)

    # ---- text
    def text(self):
        f = self.fn("rbusValue_SetFromString")
        for n in T:
            for p in self.paths(f, types={0: self.none}, nonnull=(0, 2), bound={1: self.num[n]}):
                sets = p.calls("rbusValue_Set")
                if p.c == 0 or p.c is not None and p.c & 1 == 0:
                    if sets:
                        self.bad("from-text", f, n, "text which is refused as %s is stored" % T[n][0], p.i, p.st)
                    continue
                if len(sets) != 1 or sets[0][1] != "rbusValue_Set" + n:
                    self.bad("from-text", f, n, "text read as %s is not stored as that type" % T[n][0], p.i, p.st)
                    continue
                k = T[n]
                if k[2] in "su" and n not in ("Boolean", "Char", "Byte"):
                    v = origin(sets[0][2][1])[0]
                    lo, hi = p.st.rng(v)
                    bits = 8 * W[k[1]]
                    l, h = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if k[2] == "s" else (0, (1 << bits) - 1)
                    if bits < 64 and (hi > h or lo < l and k[2] == "s"):
                        self.bad("from-text", f, n, "a number outside the range of %s is stored as that type" % T[n][0], sets[0][4], p.st)
                    if bits == 64 and v[0] != "c" and not [e for e in p.calls("__isoc23_strto|strto") if e[5] == v and re.search("strtou?ll?$|strto[iu]max", e[1]) and (("u" in e[1].split("strto")[-1]) == (k[2] == "u"))]:
                        self.bad("from-text", f, n, "text is not read as a number of type %s" % T[n][0], sets[0][4], p.st)
                if k[2] == "f" and not [e for e in p.calls("strto(f|d|ld)$") if e[5] == origin(sets[0][2][1])[0] and (n != "Double" or e[1] != "strtof")]:
                    self.bad("from-text", f, n, "text is not read as a number of type %s" % T[n][0], sets[0][4], p.st)
            if n not in ("Property", "Object") and not [p for p in self.paths(f, types={0: self.none}, nonnull=(0, 2), bound={1: self.num[n]}) if p.c is not None and p.c & 1]:
                self.bad("from-text", f, n, "no text is accepted as %s" % T[n][0])
            self.count("text_forms")
        g = self.fn("rbusValue_ToString")
        for n in NUM:
            for p in self.paths(g, types={0: self.num[n]}, nonnull=(0,)):
                sn = p.calls("snprintf$|sprintf$")
                k = 3 if sn and sn[-1][1] == "snprintf" else 2
                fm = {e[2][2 if e[1] == "snprintf" else 1] for e in sn}
                if not sn or len(fm) != 1:
                    self.bad("to-text", g, n, "a value of type %s is measured with another format than it is printed with" % T[n][0], p.i, p.st)
                    continue
                for e in sn:
                    a = e[2][k:]
                    src, cv = origin(a[-1]) if a else (ZERO, [])
                    fmt = next(iter(fm))
                    spec = re.findall(r"%[-+ #0]*[*]?[0-9]*(?:\.[*0-9]*)?(hh|h|ll|l)?([a-zA-Z])", fmt[1] if fmt[0] == "s" else "")
                    if n == "Boolean":
                        cond = {x for x in p.st.facts if mentions(x, lambda y: y[0] == "op" and y[1] == "d:i8")}
                        if a[-1][0] != "s" or not cond:
                            self.bad("to-text", g, n, "a boolean is not printed by what it holds", e[4], p.st)
                        continue
                    ok = src == ("op", "d:" + T[n][1], ("p", 0), ZERO) and len(spec) == 1
                    ok = ok and all(c.startswith("zext" if T[n][2] == "u" else "sext" if T[n][2] == "s" else "fpext") for c in cv)
                    ok = ok and (spec[0][1] in {"s": "dic", "u": "uxX", "f": "fegFEG"}[T[n][2]]) and ((spec[0][0] in ("l", "ll")) == (T[n][1] == "i64"))
                    if not ok:
                        self.bad("to-text", g, n, "a value of type %s is not printed as the number it holds" % T[n][0], e[4], p.st)
            self.count("text_forms")
        h = self.fn("rbusValueType_ToDebugString")
        names = {}
        for n in T:
            for p in self.paths(h, bound={0: self.num[n]}):
                names.setdefault(p.val, set()).add(n)
                if p.val is None or p.val[0] != "s" or p.val[1] == "unknown type" and n not in ("Int8", "UInt8"):
                    self.bad("to-text", h, n, "the type %s has no name" % T[n][0], p.i, p.st)
        for v, ns in names.items():
            if len(ns) > 1 and v != ("s", "unknown type"):
                self.bad("to-text", h, sorted(ns)[0], "the types %s have the same name" % ", ".join(sorted(ns)))


    # ---- messages
    def messages(self):
        """what one side puts in a message for a value is what the other side takes out"""
        app, ini = self.fn("rbusValue_appendToMessage"), self.fn("rbusValue_initFromMessage")
        for n in list(T) + ["none"]:
            num = self.num.get(n, self.none)
            sent = [self.sent(app, n, num, p) for p in self.paths(app, types={1: num}, nonnull=(1, 2), dnull=False)]
            if n == "none":
                sent += [self.sent(app, n, num, p) for p in self.paths(app, nonnull=(2,), bound={1: 0})]
            forms = {x[0] for x in sent if x}
            if len(forms) > 1:
                self.bad("sent-form", app, n, "a value of type %s is sent in %d different forms" % (self.nm(n), len(forms)))
            good = 0
            for p in self.msgpaths(ini, num):
                got = [e for e in p.ev if e[0] == "msg"]
                if not got or got[0][1] != "Int32":
                    self.bad("received-form", ini, n, "a received value is read before its type", p.i, p.st)
                    continue
                if p.c != 0:
                    continue
                good += 1
                if [e for e in got if not e[2]]:
                    self.bad("received-form", ini, n, "a value which could not be read from the message is accepted", p.i, p.st)
                    continue
                ty = [e[2] for e in p.ev if e[0] == "vt" and e[1] == ("v", "value", 0)][-1:]
                ty = ty[0] if ty else None
                if ty != num:
                    self.bad("received-form", ini, n, "a received value of type %s is delivered as type %s" % (self.nm(n), ty), p.i, p.st)
                    continue
                kinds = tuple(e[1] for e in got[1:])
                for x in sent:
                    if x and tuple(x[0]) != kinds:
                        self.bad("received-form", ini, n, "a value of type %s is sent as %s and read as %s" % (self.nm(n), list(x[0]), list(kinds)), p.i, p.st)
                    elif x and n in T:
                        self.roundtrip(ini, n, num, p, got, x)
            if not good and n not in ("Object", "Property"):
                self.bad("received-form", ini, n, "a received value of type %s cannot be read" % self.nm(n))
            self.count("message_forms")
        for num in (77, self.none + 1, 0xffff, -1):
            for p in self.msgpaths(ini, num):
                if p.c == 0:
                    self.bad("unknown-type", ini, str(num), "a received value of unknown type %d is accepted" % num, p.i, p.st)
        self.legacy(ini)

    def nm(self, n):
        return T[n][0] if n in T else "RBUS_NONE"

    def sent(self, f, n, num, p):
        cs = [e for e in p.ev if e[0] == "call" and re.match(r"rbusMessage_Set|rbus(Object|PropertyList)_appendToMessage$", e[1])]
        if [e[1] for e in cs[:2]] != ["rbusMessage_SetString", "rbusMessage_SetInt32"] or cs[1][2][1] != ("c", num) or cs[0][2][1] != ("p", 0) or len(cs) != 3:
            self.bad("sent-form", f, n, "a value of type %s is not sent as its name, its type and one form of its data" % self.nm(n), p.i, p.st)
            return None
        e = cs[2]
        if [x for x in cs if x[2][1 if "append" in x[1] else 0] != ("p", 2)]:
            self.bad("sent-form", f, n, "a value of type %s is not sent in the message given" % self.nm(n), p.i, p.st)
        if n in ("Object", "Property"):
            if e[1] != {"Object": "rbusObject_appendToMessage", "Property": "rbusPropertyList_appendToMessage"}[n] or held(e[2][0], n) != ("p", 1):
                self.bad("sent-form", f, n, "a value of type %s is not sent with what it holds" % self.nm(n), e[4], p.st)
                return None
            return (n,), None, p
        k = e[1][len("rbusMessage_Set"):] if e[1].startswith("rbusMessage_Set") else None
        if k == "Bytes" and n in T:
            raw = [x[5] for x in p.calls("rbusValue_GetV$") if x[2][0] == ("p", 1)] + [dcell(("p", 1))]
            ln = [x[5] for x in p.calls("rbusValue_GetL$") if x[2][0] == ("p", 1)]
            width = W.get(T[n][1], self.tsize if n == "Time" else None)
            okl = e[2][2] in ln or width is not None and e[2][2] == ("c", width)
            if n in BUF and self.buffield(e[2][1], "data") and self.buffield(e[2][2], "posWrite"):
                raw, okl = [e[2][1]], True
            if e[2][1] not in raw or not okl:
                self.bad("sent-form", f, n, "the data of a value of type %s is not sent with its length" % self.nm(n), e[4], p.st)
                return None
            return ("Bytes",), None, p
        return (k,), e[2][1] if n in T else None, p

    def msgpaths(self, f, num):
        c = Trace(self.w, nonnull=(0, 1), read=msgreader(num, self))
        e = Engine(self.w, f, c).run()
        if e.over:
            raise RuntimeError("too many paths in " + f.name)
        return c.paths

    def roundtrip(self, ini, n, num, p, got, x):
        if n in ("Object", "Property"):
            e = p.calls("rbusValue_Set%s$" % n)
            if len(e) != 1 or e[0][2][1] != ("op", "w:" + n, ("v", "read", 1), ZERO):
                self.bad("received-form", ini, n, "a received value of type %s is not given what was read" % self.nm(n), p.i, p.st)
            return
        if x[0] == ("Bytes",):
            e = p.calls("rbusValue_Set")
            data, ln = ("op", "w:data", ("v", "read", 1), ZERO), ("v", "readlen", 1)
            if n == "String" and len(e) == 1 and e[0][1] == "rbusValue_SetString" and e[0][2][1] == ZERO and (p.st.const(ln) == 0 or e[0][2][1] == data):
                return
            ok = len(e) == 1 and (e[0][1] == "rbusValue_SetTLV" and e[0][2][1] == ("c", num) and e[0][2][2] in (ln, ("c", p.st.const(ln))) and e[0][2][3] == data
                                  or e[0][1] == "rbusValue_SetBytes" and n == "Bytes" and e[0][2][1:] == (data, ln)
                                  or e[0][1] == "rbusValue_SetString" and n == "String" and e[0][2][1] == data)
            if not ok:
                self.bad("received-form", ini, n, "received data of type %s is not stored with its type and length" % self.nm(n), e[0][4] if e else p.i, p.st)
            return
        e = p.calls("rbusValue_Set")
        if len(e) != 1 or e[0][1] != "rbusValue_Set" + n:
            self.bad("received-form", ini, n, "a received value of type %s is not stored as that type" % self.nm(n), e[0][4] if e else p.i, p.st)
            return
        k = ("op", "w:" + ("double" if x[0][0] == "Double" else "i" + x[0][0][3:]), ("v", "read", 1), ZERO)
        pairs = {a for a, b in samples(n)} | {b for a, b in samples(n)}
        for a in sorted(pairs):
            s = evalv(x[1], {1: a}, n)
            r = None
            if s is not None:
                if isinstance(s, int):
                    s &= (1 << (64 if k[1] == "w:i64" else 32)) - 1
                r = evalv(e[0][2][1], {k: s}, n)
            if r is None:
                self.bad("received-form", ini, n, "what is sent for a value of type %s is not what is read back" % self.nm(n), e[0][4], p.st)
                return
            bits = 8 * W[T[n][1]]
            same = r == a if T[n][2] == "f" else int(r) & ((1 << bits) - 1) == a & ((1 << bits) - 1)
            if not same:
                self.bad("received-form", ini, n, "the value %s of type %s is received as %s" % (a, self.nm(n), r), e[0][4], p.st)
                return

    LEGACY = {"STRING": "String", "INT": "Int32", "UNSIGNEDINT": "UInt32", "BOOLEAN": "Boolean", "DATETIME": "Time", "LONG": "Int64",
              "UNSIGNEDLONG": "UInt64", "FLOAT": "Single", "DOUBLE": "Double", "BYTE": "Byte", "BASE64": "Bytes"}

    def legacy(self, ini):
        """values of old components are text with the old type"""
        en = dict(self.m.enums.get("_rbus_legacy_data_types", self.m.enums.get("rbusLegacyDataType_t", {})))
        if not en:
            en = next((dict(e) for e in self.m.enums.values() if "RBUS_LEGACY_STRING" in dict(e)), {})
        for k, n in self.LEGACY.items():
            num = en.get("RBUS_LEGACY_" + k)
            if num is None:
                continue
            ok = 0
            for p in self.msgpaths(ini, num):
                if p.c != 0:
                    continue
                got = [e for e in p.ev if e[0] == "msg"]
                e = p.calls("rbusValue_Set")
                if [x for x in got if not x[2]] or [x[1] for x in got[1:]] != ["String"] or len(e) != 1:
                    self.bad("received-form", ini, k, "a value of the old type %s is not read from its text" % k, p.i, p.st)
                    continue
                e = e[0]
                if e[1] == "rbusValue_SetFromString":
                    good = e[2][1] == ("c", self.num[n]) and e[2][2] == ("op", "w:data", ("v", "read", 1), ZERO) and p.st.const(e[5]) != 0
                else:
                    good = e[1] == "rbusValue_Set" + n and e[2][1] == ("op", "w:data", ("v", "read", 1), ZERO)
                if not good:
                    self.bad("received-form", ini, k, "a value of the old type %s is not read as %s" % (k, T[n][0]), e[4], p.st)
                ok += 1
            if not ok:
                self.bad("received-form", ini, k, "a value of the old type %s cannot be read" % k)
            self.count("message_forms")

    # ---- the same accessors of properties and objects
    def wrappers(self):
        for f in self.m.defined():
            m = re.match(r"^rbusProperty_(Init|Get|Set|Append)(%s)(Ex)?$" % "|".join(T), f.dname) or re.match(r"^rbusObject_(Get|Set)Property(%s)()$" % "|".join(T), f.dname)
            if not m:
                continue
            verb, n, ex = m.group(1), m.group(2), m.group(3)
            obj = f.dname.startswith("rbusObject")
            first = 2 if obj or verb == "Append" else 1
            data = [("p", k) for k in range(first, len(f.argtypes))]
            hit = 0
            for p in self.paths(f, nonnull=range(len(f.argtypes)) if True else ()):
                cs = [e for e in p.ev if e[0] == "call" and (ACC.match(e[1]) or re.match(r"rbusProperty_(Init|Get|Set|Append)(%s)(Ex)?$" % "|".join(T), e[1]))]
                if not cs:
                    if verb != "Get" or p.c == 0 and (ex or obj):
                        self.bad("typed-wrapper", f, n, "%s does not reach the accessor of %s" % (f.dname, n), p.i, p.st)
                    continue
                e = cs[0]
                k = ACC.match(e[1]) or re.match(r"rbusProperty_(Init|Get|Set|Append)(%s)(Ex)?$" % "|".join(T), e[1])
                want = ("Get",) if verb == "Get" else ("Init", "Set")
                args = list(e[2][-len(data):]) if data else []
                if len(cs) != 1 or k.group(1) not in want or k.group(2) != n or args != data or verb == "Get" and bool(k.group(3)) != (bool(ex) or obj):
                    self.bad("typed-wrapper", f, n, "%s passes on what it is given as another type" % f.dname, e[4], p.st)
                elif verb == "Get" and not (p.val == e[5] or p.val is not None and p.val[0] == "op" and p.val[1] == "g:" + n or p.c is not None and p.st.const(e[5]) == p.c):
                    self.bad("typed-wrapper", f, n, "%s does not return what it read" % f.dname, p.i, p.st)
                hit += 1
            if not hit:
                self.bad("typed-wrapper", f, n, "%s never reaches the accessor of %s" % (f.dname, n))
            self.count("wrappers")

    def marshal(self):
        """a time as the C library has it, and back: every field to the field of its name"""
        for name in ("rbusValue_MarshallTMtoRBUS", "rbusValue_UnMarshallRBUStoTM"):
            f = self.fn(name)
            for p in self.paths(f, nonnull=(0, 1)):
                got = {}
                for e in p.of("out"):
                    if root(e[1]) == ("p", 0):
                        v = origin(e[2])[0]
                        src = path(v[2])[-1:] if v[0] == "op" and v[1] == "m" and root(v[2]) == ("p", 1) else None
                        got[path(e[1])[-1:]] = src
                fields = {k for k in got if k and k[0].startswith("tm_")}
                whole = [e for e in p.calls("llvm.memcpy|memcpy")]
                if not whole and len(fields) < 9:
                    self.bad("time-fields", f, name, "%d of the 9 fields of a time are copied" % len(fields), p.i, p.st)
                for k in fields:
                    if got[k] != k:
                        self.bad("time-fields", f, k[0], "the field %s of a time is copied from %s" % (k[0], (got[k] or ("something else",))[0]), p.i, p.st)
            self.count("wrappers")


MSGW = {"Int32": "i32", "Int64": "i64", "Double": "double"}


def msgreader(num, R_):
    """a message whose first number is the type; every further read succeeds or fails"""
    def f(t, eng, st, i, n, args):
        if n == "rbusValue_Init" and args:
            v = ("v", "value", 0)
            st.facts[v] = (-INF, INF, frozenset({0}))
            st.mem[args[0]] = v
            st.ts = st.ts + (("vt", v, R_.none), ("cell", args[0], v))
            return None
        m = re.match(r"rbusMessage_Get(Int32|Int64|Double|String|Bytes)$", n)
        k = len([e for e in st.ts if e[0] == "msg"])
        if m and i.id in st.regs:
            out = []
            for ok in (True, False):
                s = st.copy()
                s.regs[i.id] = ZERO if ok else ("c", 1)
                s.ts = s.ts + (("msg", m.group(1), ok),)
                if ok and k == 0:
                    s.mem[args[1]] = ("c", num)
                elif ok:
                    r = ("v", "read", k)
                    s.mem[args[1]] = ("op", "w:" + MSGW.get(m.group(1), "data"), r, ZERO)
                    if m.group(1) == "Bytes":
                        s.mem[args[2]] = ("v", "readlen", k)
                        s.facts[("v", "readlen", k)] = (0, (1 << 32) - 1, frozenset())
                    if m.group(1) == "String":
                        s.facts[s.mem[args[1]]] = (-INF, INF, frozenset({0}))
                out.append(s)
            return out
        m = re.match(r"rbus(Object|PropertyList)_initFromMessage$", n)
        if m:
            o = "Object" if m.group(1) == "Object" else "Property"
            st.mem[args[0]] = ("op", "w:" + o, ("v", "read", k), ZERO)
            st.ts = st.ts + (("msg", o, True),)
            return None
        m = re.match(r"rbusValue_Set(%s)$" % "|".join(T), n)
        if m:
            st.ts = st.ts + (("vt", args[0], R_.num[m.group(1)]),)
            return None
        if n in ("rbusValue_SetTLV", "rbusValue_SetFromString") and st.const(args[1]) is not None:
            s = st.copy()
            st.ts = st.ts + (("vt", args[0], st.const(args[1])),)
            if i.id in st.regs and n == "rbusValue_SetFromString":
                st.regs[i.id], s.regs[i.id] = ("c", 1), ZERO
            if n == "rbusValue_SetTLV" and st.const(args[1]) not in R_.num.values():
                return [s]
            return [st, s]
        return None
    return f


def run(w, res):
    r = R(w, res)
    r.setters()
    r.getters()
    r.raw()
    r.codec()
    r.compare()
    r.copying()
    r.destroy()
    r.text()
    r.messages()
    r.wrappers()
    r.marshal()
    for k, v in r.n.items():
        res.count(k, v, 1)
    res.rule("C10.*: for each of the 18 value types, every path of the code that switches on the type is evaluated with the type fixed: setters store exactly the "
             "representation and the tag, typed reads succeed only for that type and deliver all of it, raw length and data match, stored form and message form carry the tag and are read "
             "back by the primitive of the same width and byte order (numbers are checked to survive at the ends of their range), comparison and copying use the whole value and give back "
             "what the destination held, text is range-checked, unknown tags are refused, typed accessors of properties and objects reach the accessor of their own type.")
    res.assume("text and bytes share one representation and may be read as either; byte order conversions are the compiler's on this host")
