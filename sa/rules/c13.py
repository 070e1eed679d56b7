"""Fixed-size arrays are never written past their end, and truncated text stays terminated."""
import re
from engine import *
from rules.c11 import lin, norm, strip0

COPY = {"memcpy", "memmove", "memset", "llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "llvm.memset.p0.i64"}
# destination argument, size argument, does the text always end with a zero
SIZED = {"strncpy": (0, 2, False), "snprintf": (0, 1, True), "vsnprintf": (0, 1, True), "fgets": (0, 1, True), "recv": (1, 2, True), "read": (1, 2, True),
         "strlcpy": (0, 2, True), "inet_ntop": (2, 3, True), "gethostname": (0, 1, True), "strftime": (0, 1, True)}
for n in COPY:
    SIZED[n] = (0, 2, True)
UNSIZED = {"strcpy", "strcat", "sprintf", "vsprintf", "stpcpy", "gets"}
SYSTEM = {"fd_set"}          # indexed by descriptor number: see assumptions


def dims(t):
    """'[4 x [8 x i8]]' -> ([4, 8], 'i8')"""
    d = []
    while t.startswith("["):
        m = re.match(r"\[(\d+) x (.*)\]$", t)
        d.append(int(m.group(1)))
        t = m.group(2)
    return d, t


BIG = 1 << 62


class Cap:
    def __init__(self, w):
        self.w = w
        self.al = {}

    def typesize(self, t):
        m = re.match(r"i(\d+)$", t)
        if m:
            return max(1, int(m.group(1)) // 8)
        if t == "ptr" or t == "double":
            return 8
        if t == "float":
            return 4
        if t.startswith("%"):
            fs = self.w.m.structs.get(t[1:])
            return max(x[2] + x[3] for x in fs) if fs else None
        return None

    def member(self, a):
        """a scalar or union member of a structure"""
        if a[0] != "gep" or a[2][-1][0] != "f":
            return None
        sname, fname = a[2][-1][1:3]
        for x in self.w.m.structs.get(sname, ()):
            if x[0] == fname and x[2] > 0 and not x[1].startswith("["):
                return a, x[3], {}, "%s.%s" % (sname, fname)
        return None

    def of(self, fn, st, a):
        """(array address, its size in bytes, offset written at as a linear form in bytes, name) of an address inside a fixed-size array, else None"""
        base, steps = (a[1], list(a[2])) if a[0] == "gep" else (a, [])
        k = max([j for j, s in enumerate(steps) if s[0] == "f"], default=-1)
        if k >= 0:
            sname, fname = steps[k][1:3]
            if sname in SYSTEM:
                return None
            fs = {x[0]: x for x in self.w.m.structs.get(sname, ())}
            if fname not in fs or not fs[fname][1].startswith("["):
                # an element of an array of structures further up?
                return self.of(fn, st, mkgep(base, steps[:k])) if any(s[0] == "i" for s in steps[:k]) else None
            t, size = fs[fname][1], fs[fname][3]
            name = "%s.%s" % (sname, fname)
        elif base[0] == "al":
            d = fn.defs.get(base[1])
            if d is None or d.op != "alloca" or not d.at or d.ops[0][1] != 1:
                return None
            t, size, name = d.at, d.size, d.name or "local"
            if not t.startswith("["):
                if steps:
                    return None
                t, name = "[%d x i8]" % size, name
        elif base[0] == "g":
            g = self.w.m.globals.get(base[1])
            if g is None or not g["type"].startswith("["):
                return None
            t, size, name = g["type"], g["size"], g["dname"]
        else:
            return None
        d, e = dims(t)
        es = size
        off = {}
        idx = [s[1] for s in steps[k + 1:]]
        strides = []
        for x in d:
            es //= x
            strides.append(es)
        for j, x in enumerate(idx):
            lin(x, strides[min(j, len(strides) - 1)], off)
        return mkgep(base, steps[:k + 1]), size, {q: c for q, c in off.items() if c}, name


def upper(st, l, cap=None, depth=0):
    """an upper bound of a linear form on this path; cap gives the capacity of a text's array"""
    whole = BIG
    ts = {t: c for t, c in l.items() if t != 1}
    if len(ts) > 1:
        for k, f in st.facts.items():
            if k[0] == "op" and k[1] in ("sub", "add") and f[1] < BIG:
                x = lin(k)
                if {t: c for t, c in x.items() if t != 1} == ts:
                    whole = min(whole, f[1] - x.get(1, 0) + l.get(1, 0))
    if whole < BIG:
        return whole
    o = 0
    for t, c in l.items():
        if t == 1:
            o += c
            continue
        lo, hi = st.rng(t)
        lo2, hi2 = st.rng(norm(t))
        lo, hi = max(lo, lo2), min(hi, hi2)
        u = norm(t)
        if u[0] == "op" and u[1] in ("len", "byte"):
            lo = max(lo, 0)
            if u[1] == "len" and cap is not None:
                k = cap(u[2])
                if k is not None:
                    hi = min(hi, k)
        if u[0] == "op" and u[1] in ("urem", "srem") and u[3][0] == "c":
            hi = min(hi, u[3][1] - 1)
        if u[0] == "op" and u[1] == "and" and u[3][0] == "c" and u[3][1] >= 0:
            hi = min(hi, u[3][1])
            lo = max(lo, 0)
        if c > 0 and depth < 2:
            # what the path knows about it in relation to something bounded
            for k, f in st.facts.items():
                if k[0] == "op" and k[1] in ("icmp slt", "icmp ult", "icmp sle", "icmp ule") and f[0] == f[1] == 1 and norm(k[2]) == u:
                    x = upper(st, lin(k[3]), cap, depth + 1)
                    if x is not None:
                        hi = min(hi, x - (1 if k[1].endswith("lt") else 0))
        x = hi if c > 0 else lo
        if abs(x) >= 1 << 62:
            return None
        o += c * x
    return o


def shi(f, v, b, seen=None):
    """structural upper bounds of a loop counter used in block b: (value, constant) pairs, it is at most the largest of them; None if unbounded"""
    seen = seen or {}
    if not isinstance(v, int):
        return [(None, v[1])] if v[0] == "c" else [] if v[0] == "u" else None
    d = f.defs.get(v)
    # a comparison that dominates this use
    for c, truth in known(f, b):
        p = c.pred if truth else INV[c.pred]
        x, y = c.ops[0], c.ops[1]
        if same(f, y, v):
            x, y, p = y, x, SWAP[p]
        if same(f, x, v) and p in ("slt", "ult", "sle", "ule"):
            return [(y, -1 if p.endswith("lt") else 0)]
    if v in seen:
        # around a loop: what came before bounds it as long as nothing was added on the way
        return [] if seen[v] <= 0 else None
    if d is None or len(seen) > 12:
        return None

    def on(k):
        r = {x: n + k for x, n in seen.items()}
        r[v] = k
        return r
    if d.op in ("zext", "sext", "trunc"):
        return shi(f, d.ops[0], b, on(0))
    if d.op == "add" and not isinstance(d.ops[1], int) and d.ops[1][0] == "c":
        r = shi(f, d.ops[0], d.block.id, on(d.ops[1][1]))
        return [(x, k + d.ops[1][1]) for x, k in r] if r is not None else None
    if d.op == "phi":
        out = []
        for pb, x in d.ops:
            r = shi(f, x, pb, on(0))
            if r is None:
                return None
            out += r
        return out
    if d.op == "select":
        out = []
        for x in d.ops[1:3]:
            r = shi(f, x, b, on(0))
            if r is None:
                return None
            out += r
        return out
    return None


def known(f, b):
    """comparisons whose outcome is certain in block b, those behind a short-circuit && or || included"""
    cache = f.__dict__.setdefault("known13", {})
    if b in cache:
        return cache[b]
    at = {b}
    facts = {}
    work = True
    while work:
        work = False
        for blk in f.blocks:
            t = blk.insts[-1]
            if t.op != "br" or not t.ops or not isinstance(t.ops[0], int) or t.succ[0] == t.succ[1]:
                continue
            c = f.defs.get(t.ops[0])
            for truth, tgt in ((1, t.succ[0]), (0, t.succ[1])):
                if c is None or not any(edge_dominates(f, blk.id, tgt, x) for x in at):
                    continue
                if c.op == "icmp":
                    facts[c.id] = (c, truth)
                elif c.op == "phi" and c.block is blk:
                    left = [(pb, v) for pb, v in c.ops if isinstance(v, int) or (v[1] & 1) == truth]
                    if len(left) == 1:
                        if left[0][0] not in at:
                            at.add(left[0][0])
                            work = True
                        x = f.defs.get(left[0][1]) if isinstance(left[0][1], int) else None
                        if x is not None and x.op == "icmp":
                            facts[x.id] = (x, truth)
    cache[b] = list(facts.values())
    return cache[b]


def walkbase(f, v):
    """(what a moving pointer started from, starting points of the other moving pointers of its loop), None if it does not move"""
    d = f.defs.get(v) if isinstance(v, int) else None
    if d is None:
        return None
    work, seen, base, moves, blocks = [v], set(), set(), False, set()
    while work:
        x = work.pop()
        if isinstance(x, int) and x in seen:
            continue
        seen.add(x) if isinstance(x, int) else None
        d = f.defs.get(x) if isinstance(x, int) else None
        if d is not None and d.op == "phi":
            blocks.add(d.block.id)
            work += [y for _, y in d.ops]
        elif d is not None and d.op == "getelementptr" and all(s[0] == "p" and not isinstance(s[1], int) for s in d.steps):
            moves = True
            work.append(d.ops[0])
        else:
            base.add(x if isinstance(x, int) else tuple(x))
    if not moves or not blocks or len(base) != 1:
        return None
    src = set()
    for b in blocks:
        for p in f.blocks[b].insts:
            if p.op == "phi" and p.ty == "ptr" and p.id not in seen:
                w, s2, b2 = [p.id], set(), set()
                while w:
                    x = w.pop()
                    if isinstance(x, int) and x in s2:
                        continue
                    d = f.defs.get(x) if isinstance(x, int) else None
                    s2.add(x) if isinstance(x, int) else None
                    if d is not None and d.op == "phi":
                        w += [y for _, y in d.ops]
                    elif d is not None and d.op == "getelementptr" and all(s[0] == "p" for s in d.steps):
                        w.append(d.ops[0])
                    else:
                        b2.add(x if isinstance(x, int) else tuple(x))
                if len(b2) == 1:
                    src |= b2
    return base.pop(), src


def same(f, x, v):
    while isinstance(x, int) and x != v and f.defs.get(x) is not None and f.defs[x].op in ("zext", "sext"):
        x = f.defs[x].ops[0]
    return x == v


def edge_dominates(f, a, t, b):
    """every path to block b goes over the edge a -> t"""
    ps = f.blocks[t].preds
    return len(ps) == 1 and pid(ps[0]) == a and t in f.doms()[b]


def pid(x):
    return x if isinstance(x, int) else x.id


class Returned(Client):
    """what a function which changes nothing returns, for what its caller knows about its argument"""
    K = 100
    KHEAD = 4
    MAXSTEPS = 20000

    def __init__(self, cells, facts):
        self.cells, self.facts, self.out = cells, facts, []

    def init_state(self, fn, st):
        st.mem.update(self.cells)
        st.facts.update(self.facts)
        st.facts[("p", 0)] = (-INF, INF, frozenset({0}))

    def ts_live(self, ts):
        return list(self.facts)

    def on_ret(self, eng, st, i, val):
        self.out.append((INF, INF) if val is None else (st.const(val),) * 2 if st.const(val) is not None else st.rng(val))


class Writes(Client):
    """typestate: (addresses cleared, texts perhaps not terminated)"""
    K = 5
    MAXSTEPS = 120000

    def __init__(self, R, f):
        self.R = R
        self.w = R.w
        self.f = f
        self.hits = {}
        self.newob = set()
        self.sites = {}

    def init_ts(self, fn):
        return (frozenset(), frozenset())

    def ts_live(self, ts):
        return list(ts[0]) + [x for p in ts[1] for x in (p[0],)]

    def hit(self, st, i, name, what):
        self.hits.setdefault((name, i.where()), (i, what, trail_text(st, 6)))

    # -- lengths of texts
    def textlen(self, st, a):
        """upper bound of strlen(a)"""
        if a[0] == "s":
            return len(a[1])
        n = ("op", "len", strip0(a), ZERO)
        hi = upper(st, {n: 1})
        c = self.R.cap.of(self.f, st, a)
        if c:
            # a place before the array would not be inside it
            k = c[1] - (c[2].get(1, 0) if set(c[2]) <= {1} else 0) - 1
            hi = k if hi is None else min(hi, k)
        return hi

    def fmtlen(self, st, i, fmt, args):
        """upper bound of what a format produces"""
        if fmt[0] != "s":
            return None
        k = 0
        n = 0
        pos = 0
        for m in re.finditer(r"%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t|L)?([a-zA-Z%])", fmt[1]):
            n += m.start() - pos
            pos = m.end()
            c = m.group(5)
            if c == "%":
                n += 1
                continue
            if m.group(2) == "*" or m.group(3) == "*":
                return None
            if k >= len(args):
                return None
            a = args[k]
            k += 1
            wd = int(m.group(2) or 0)
            if c == "s":
                t = self.textlen(st, a)
                if m.group(3):
                    t = int(m.group(3)) if t is None else min(t, int(m.group(3)))
                if t is None:
                    return None
                n += max(wd, t)
            elif c == "c":
                n += max(wd, 1)
            elif c in "diuxXo":
                lo, hi = st.rng(norm(a))
                big = {None: 11, "h": 6, "hh": 4, "l": 20, "ll": 20, "z": 20, "j": 20, "t": 20}[m.group(4)]
                if c in "xX":
                    big = {None: 8, "h": 4, "hh": 2}.get(m.group(4), 16)
                    x = norm(a)
                    if self.narrow(a) == 1:
                        big = 2
                elif lo >= 0 and hi < 1 << 62:
                    big = len(str(hi))
                elif self.narrow(a):
                    big = {1: 4, 2: 6}.get(self.narrow(a), big)
                n += max(wd, big)
            elif c == "p":
                n += max(wd, 18)
            else:
                return None
        return n + len(fmt[1]) - pos

    def narrow(self, v):
        """bytes a widened value had when it was loaded"""
        v = norm(v)
        if v[0] == "v" and isinstance(v[1], int):
            d = self.f.defs.get(v[1])
            if d is not None and d.ty in ("i8", "i16"):
                return {"i8": 1, "i16": 2}[d.ty]
        return None

    # -- hooks
    def after_call(self, eng, st, i, args):
        n = i.callee_full
        if n == "strlen":
            v = ("op", "len", strip0(args[0]), ZERO)
            st.regs[i.id] = ("c", len(args[0][1])) if args[0][0] == "s" else v
        elif n == "strnlen":
            b = st.const(args[1])
            v = ("op", "len", strip0(args[0]), ZERO)
            st.regs[i.id] = v if args[0][0] != "s" else ("c", len(args[0][1]))
        elif n in ("strcpy", "strncpy", "strcat", "snprintf", "sprintf", "memcpy", "fgets", "rtString_Copy"):
            k = ("op", "len", strip0(args[0]), ZERO)
            st.facts.pop(k, None)
        elif n in ("calloc", "rt_calloc", "rt_try_calloc"):
            v = st.regs.get(i.id)
            if v is not None:
                st.ts = (st.ts[0] | {strip0(v)}, st.ts[1])
        elif len(args) == 1 and args[0][0] == "al" and i.ty in ("i16", "i32", "i64") and i.id in st.regs and st.const(st.regs[i.id]) is None:
            r = self.returned(st, n, args[0])
            if r is not None:
                st.facts[st.regs[i.id]] = (r[0], r[1], frozenset())

    def returned(self, st, n, a):
        """bounds of what a reader of a local object returns, given what is stored in that object"""
        g = self.w.m.funcs.get(n or "")
        if g is None or g.decl or self.w.modset(n) or sum(1 for _ in g.insts()) > 120:
            return None
        cells, facts = {}, {}
        for k, v in st.mem.items():
            if root(k) == a and k != a:
                c = st.const(v)
                if c is None:
                    x = ("v", "ctx%d" % len(facts), 0)
                    facts[x] = st.facts.get(v, (-INF, INF, frozenset()))
                    cells[subst(k, a, ("p", 0))] = x
                else:
                    cells[subst(k, a, ("p", 0))] = ("c", c)
        key = (n, tuple(sorted(cells.items(), key=repr)), tuple(sorted(facts.items(), key=repr)))
        if key not in self.R.rets:
            c = Returned(cells, facts)
            e = Engine(self.w, g, c).run()
            ok = not e.over and c.out and all(lo > -INF and hi < INF for lo, hi in c.out)
            self.R.rets[key] = (min(x[0] for x in c.out), max(x[1] for x in c.out)) if ok else None
        return self.R.rets[key]

    def on_call(self, eng, st, i, args):
        n = i.callee_full
        if n is None:
            return None
        if n in ("memset", "llvm.memset.p0.i64") and args[1] == ZERO:
            st.ts = (st.ts[0] | {strip0(args[0])}, frozenset(x for x in st.ts[1] if not under(x[0], strip0(args[0]))))
        for k, fl in self.R.clears.get(n, {}).items():
            if k < len(args):
                st.ts = (st.ts[0] | {mkgep(strip0(args[k]), fl1) for fl1 in fl}, st.ts[1])
        if n in SIZED:
            d, s, z = SIZED[n]
            self.sized(eng, st, i, n, args[d], args[s], z, args)
        elif n in UNSIZED:
            self.unsized(eng, st, i, n, args)
        elif n == "fread":
            x, y = st.const(args[1]), st.const(args[2])
            amount = ("c", x * y) if x is not None and y is not None else ("op", "mul", args[2], args[1]) if x is not None else args[1] if y == 1 else ("op", "mul", args[1], args[2])
            self.sized(eng, st, i, n, args[0], amount, True, args)
        else:
            for (kd, ks) in self.R.oblige.get(n, ()):
                if kd < len(args) and ks == "any":
                    self.anysize(st, i, n, args[kd])
                elif kd < len(args):
                    self.sized(eng, st, i, n, args[kd], args[ks] if isinstance(ks, int) else ("c", ks[1]), True, args)
        for k, size, fn, name in sorted(self.R.needs.get(n, ())):
            if k >= len(args):
                continue
            self.sites[i.where()] = name
            t = self.textlen(st, args[k])
            if t is not None and t < size or st.isnull(args[k]) is True:
                continue
            if t is None and args[k][0] == "p":
                self.R.newneeds.add((self.f.name, args[k][1], size, fn, name))
                continue
            self.hit(st, i, name, "%s gets a text of %s to copy into %s, which has %d bytes" % (n, "up to %d characters" % t if t is not None else "any length", name, size))
        # a text that may lack its end is used
        for x in st.ts[1]:
            if x[1] != i.id and any(under(strip0(a), x[0]) for a in args) and n not in SIZED and not n.startswith("llvm."):
                self.hit(st, i, x[2], "uses the text in %s, which %s may have left without an end" % (x[2], x[3]))
        return None

    def anysize(self, st, i, n, d):
        c = self.R.cap.of(self.f, st, d)
        if c is not None:
            self.sites[i.where()] = c[3]
            self.hit(st, i, c[3], "%s writes any number of bytes into %s, which has %d" % (n, c[3], c[1]))
        elif root(d)[0] == "p" and lastfield(d) is None:
            self.newob.add((self.f.name, root(d)[1], "any"))

    def sized(self, eng, st, i, n, d, amount, z, args):
        c = self.R.cap.of(self.f, st, d) or self.R.cap.member(d)
        if c is None:
            self.param(st, i, n, d, amount)
            return
        arr, size, off, name = c
        self.sites[i.where()] = name
        l = dict(off)
        lin(amount, 1, l)
        l = {t: k for t, k in l.items() if k}
        u = upper(st, l, self.fixedlen(st))
        uo = upper(st, off, self.fixedlen(st))
        if u is None or u > size or uo is None or uo > size:
            # copies that stop at the end of a text that fits
            if n in ("snprintf", "vsnprintf") and n == "snprintf":
                b = self.fmtlen(st, i, args[2], args[3:])
                if b is not None and uo is not None and uo + b + 1 <= size:
                    return
            self.hit(st, i, name, "%s may write %s bytes into %s, which has %d" % (n, "up to %d" % u if u is not None else "any number of", name, size))
            return
        if not z:
            t = self.textlen(st, args[1])
            na = upper(st, lin(amount))
            if t is not None and na is not None and t < na:
                return
            cleared = any(under(strip0(arr), x) for x in st.ts[0])
            if cleared and u < size:
                return
            st.ts = (st.ts[0], st.ts[1] | {(strip0(arr), i.id, name, n)})

    def unsized(self, eng, st, i, n, args):
        c = self.R.cap.of(self.f, st, args[0])
        if c is None:
            self.param(st, i, n, args[0], None)
            return
        arr, size, off, name = c
        self.sites[i.where()] = name
        uo = upper(st, off)
        if n == "sprintf":
            u = self.fmtlen(st, i, args[1], args[2:])
        elif n in ("strcpy", "stpcpy", "strcat"):
            u = self.textlen(st, args[1])
            if n == "strcat" and u is not None:
                b = upper(st, {("op", "len", strip0(args[0]), ZERO): 1})
                u = None if b is None else u + b
        else:
            u = None
        if u is None and n == "strcpy" and root(args[1])[0] == "p" and args[1] == root(args[1]) and uo is not None:
            self.R.newneeds.add((self.f.name, args[1][1], size - uo, n, name))
            return
        if u is None or uo is None or uo + u + 1 > size:
            self.hit(st, i, name, "%s may write %s bytes into %s, which has %d" % (n, "up to %d" % (u + 1) if u is not None else "any number of", name, size))

    def param(self, st, i, n, d, amount):
        """the caller's buffer: its size has to be one of the parameters or a constant"""
        r = root(d)
        if r[0] != "p" or lastfield(d) is not None:
            return
        f = self.f
        nm = f.argnames[r[1]] if f.argnames and r[1] < len(f.argnames) else ""
        a = norm(amount) if amount is not None else None
        off = [s[1] for s in d[2]] if d[0] == "gep" else []
        sizes = [k for k, x in enumerate(f.argnames or ()) if k != r[1] and f.argtypes[k] in ("i32", "i64") and re.search("len|size|cap|n$", x, re.I)]
        if a is not None and a[0] == "p" and all(o == ZERO for o in off):
            self.newob.add((f.name, r[1], a[1]))
        elif a is not None and a[0] == "c" and all(o == ZERO for o in off) and n not in COPY:
            self.newob.add((f.name, r[1], ("c", a[1])))
        elif sizes and n not in COPY:
            l = {}
            for o in off:
                lin(o, 1, l)
            if amount is not None:
                lin(amount, 1, l)
                l = {t: k for t, k in l.items() if k}
                if set(l) <= {1} or self.within(st, l, sizes, any(o != ZERO for o in off)):
                    return
            self.hit(st, i, nm, "%s writes into the caller's buffer %s without regard to its size" % (n, nm))

    def within(self, st, l, sizes, behind=False):
        """the amount is at most a size parameter, which is large enough for what is taken off it"""
        def par(l):
            return any(set(l) <= {("p", k), 1} and l.get(("p", k)) == 1 and l.get(1, 0) <= 0 and (l.get(1, 0) == 0 or behind or st.rng(("p", k))[0] >= -l.get(1, 0)) for k in sizes)
        l = {norm(t) if isinstance(t, tuple) else t: k for t, k in l.items()}
        if par(l):
            return True
        t = [x for x in l if isinstance(x, tuple)]
        if len(t) != 1 or l[t[0]] != 1:
            return False
        for k, f in st.facts.items():
            if k[0] == "op" and k[1] in ("icmp slt", "icmp ult", "icmp sle", "icmp ule") and f[0] == f[1] == 1 and norm(k[2]) == t[0]:
                b = {norm(x) if isinstance(x, tuple) else x: q for x, q in lin(k[3]).items()}
                b[1] = b.get(1, 0) + l.get(1, 0)
                if par({x: q for x, q in b.items() if q}):
                    return True
        return False

    def on_store(self, eng, st, i, a, v):
        wb = walkbase(self.f, i.ops[1])
        if wb is not None:
            self.walk(eng, st, i, wb)
            return None
        c = self.R.cap.of(self.f, st, a)
        if c is None:
            self.indexed(eng, st, i, a)
            return None
        arr, size, off, name = c
        if v == ZERO:
            st.ts = (st.ts[0], frozenset(x for x in st.ts[1] if x[0] != strip0(arr)))
        if not off and not any(s[0] == "i" for s in (a[2] if a[0] == "gep" else ())):
            return None
        self.sites[i.where()] = name
        u = upper(st, off, self.fixedlen(st))
        if (u is None or u + 1 > size) and self.counter(eng, st, i, size):
            return None
        if u is None or u + 1 > size:
            self.hit(st, i, name, "stores at %s of %s, which has %d bytes" % ("offset %d" % u if u is not None else "an unchecked place", name, size))
        return None

    def walk(self, eng, st, i, wb):
        """a store through a pointer that moves on: it may not move further than the text it copies is long"""
        base, src = wb
        d = self.address(base)
        if d is None:
            return
        c = self.R.cap.of(self.f, st, d)
        lens = []
        for x in src:
            b = self.address(x)
            if b is not None:
                lens.append(upper(st, {("op", "len", strip0(b), ZERO): 1}, None if c is None else self.fixedlen(st)))
        if c is None:
            if root(d)[0] == "p" and lastfield(d) is None and self.f.defs.get(i.ops[1]) is not None and i.ops[0] is not None and self.bytewide(i):
                self.newob.add((self.f.name, root(d)[1], "any"))
            return
        arr, size, off, name = c
        self.sites[i.where()] = name
        u = min([x for x in lens if x is not None], default=None)
        uo = upper(st, off)
        if u is None or uo is None or uo + u + 1 > size:
            self.hit(st, i, name, "stores through a pointer that may move past the end of %s, which has %d bytes" % (name, size))

    def address(self, v):
        if not isinstance(v, int):
            return ("g", v[1]) if v[0] == "g" else None
        if v < len(self.f.args):
            return ("p", v)
        d = self.f.defs.get(v)
        if d is None:
            return None
        if d.op == "alloca":
            return ("al", v)
        if d.op == "getelementptr" and not any(s[0] != "f" and isinstance(s[1], int) for s in d.steps):
            b = self.address(d.ops[0])
            return None if b is None else mkgep(b, [("f", s[1], s[2]) if s[0] == "f" else ("i", ("c", s[1][1])) for s in d.steps])
        return None

    def bytewide(self, i):
        v = i.ops[0]
        return not isinstance(v, int) and len(v) > 2 and v[0] == "c" and v[2] == 8 or isinstance(v, int) and v in self.f.defs and self.f.defs[v].ty == "i8"

    def indexed(self, eng, st, i, a):
        """bytes stored into the caller's buffer at a place that depends on something other than its size"""
        if a[0] != "gep" or a[1][0] != "p" or len(a[2]) != 1 or a[2][0][0] != "i" or a[2][0][1][0] == "c" or not self.bytewide(i):
            return
        k = a[1][1]
        d = self.f.defs.get(i.ops[1])
        ix = [x for x in d.steps if x[0] in "ip" and isinstance(x[1], int)] if d is not None and d.op == "getelementptr" else []
        l = lin(a[2][0][1], 1, {1: 1})
        sizes = [q for q, x in enumerate(self.f.argnames or ()) if q != k and self.f.argtypes[q] in ("i32", "i64") and re.search("len|size|cap|n$", x, re.I)]
        if self.within(st, l, sizes, True):
            return
        if len(ix) == 1:
            r = shi(self.f, ix[0][1], i.block.id)
            ok = r is not None
            for y, c in r or ():
                if y is None:
                    continue
                b = lin(self.static(eng, st, y), 1, {1: c + 1})
                if not self.within(st, b, sizes, True):
                    ok = False
            if ok and r:
                return
        self.newob.add((self.f.name, k, "any"))

    def counter(self, eng, st, i, size):
        """the index is a loop counter whose bound fits"""
        f = self.f
        d = f.defs.get(i.ops[1]) if isinstance(i.ops[1], int) else None
        ix = []
        while d is not None and d.op == "getelementptr":
            ix = [x for x in d.steps if x[0] == "i"] + ix
            d = f.defs.get(d.ops[0]) if isinstance(d.ops[0], int) else None
        ix = [x for x in ix if isinstance(x[1], int)]
        if len(ix) != 1:
            return False
        r = shi(f, ix[-1][1], i.block.id)
        work = list(r or ())
        n = 0
        while work and n < 40:
            n += 1
            y, k = work.pop()
            x = k if y is None else None
            if y is not None:
                v = eng.val(st, y)
                x = upper(st, lin(v), self.fixedlen(st))
                if x is None:
                    x = self.staticlen(st, y)
                if x is None:
                    z = shi(f, y, f.defs[y].block.id) if isinstance(y, int) and y in f.defs else None
                    if z is None:
                        return False
                    work += [(q, k + j) for q, j in z]
                    continue
                x += k
            if (x + 1) * ix[-1][3] > size:
                return False
        return r is not None and not work

    def static(self, eng, st, y):
        """a value, rebuilt from parameters and constants if the path no longer has it"""
        v = eng.val(st, y)
        d = self.f.defs.get(y) if isinstance(y, int) else None
        if v != ("v", y, 0):
            return v
        if isinstance(y, int) and y < len(self.f.args):
            return ("p", y)
        if d is not None and d.op in ("zext", "sext", "trunc"):
            return self.static(eng, st, d.ops[0])
        if d is not None and d.op in ("add", "sub"):
            return ("op", d.op, self.static(eng, st, d.ops[0]), self.static(eng, st, d.ops[1]))
        return v

    def staticlen(self, st, y):
        """bound of a text length taken from a fixed array, whatever the path"""
        d = self.f.defs.get(y) if isinstance(y, int) else None
        if d is None or d.op != "call" or d.callee_full not in ("strlen", "strnlen"):
            return None
        steps, v = [], d.ops[0]
        while isinstance(v, int) and v in self.f.defs and self.f.defs[v].op == "getelementptr":
            g = self.f.defs[v]
            if any(s[0] == "i" and isinstance(s[1], int) for s in g.steps):
                return None
            steps = [("f", s[1], s[2]) if s[0] == "f" else ("i", ("c", s[1][1])) for s in g.steps] + steps
            v = g.ops[0]
        if isinstance(v, int):
            b = ("al", v) if v in self.f.defs and self.f.defs[v].op == "alloca" else None
        else:
            b = ("g", v[1]) if v[0] == "g" else None
        return self.fixedlen(st)(mkgep(b, steps)) if b else None

    def fixedlen(self, st):
        def cap(a):
            c = self.R.cap.of(self.f, st, a)
            return c[1] - c[2].get(1, 0) - 1 if c and set(c[2]) <= {1} else None
        return cap

    def on_ret(self, eng, st, i, val):
        for x in st.ts[1]:
            if root(x[0])[0] not in ("al",):
                self.hit(st, i, x[2], "%s may leave the text in %s without an end" % (x[3], x[2]))


def under(a, p):
    """address a lies inside p"""
    if a == p:
        return True
    a0, s = (a[1], a[2]) if a[0] == "gep" else (a, ())
    p0, t = (p[1], p[2]) if p[0] == "gep" else (p, ())
    return a0 == p0 and s[:len(t)] == t


class R:
    def __init__(self, w):
        self.rets = {}
        self.w = w
        self.cap = Cap(w)
        self.oblige = {}
        self.needs = {}           # function -> texts that have to fit
        self.newneeds = set()
        self.newoblige = set()
        self.clears = {}
        for f in w.m.defined(True):
            for i in f.insts():
                if i.op == "call" and i.callee_full in ("memset", "llvm.memset.p0.i64") and i.ops[1][0:2] == ["c", 0]:
                    p = path(f, i.ops[0])
                    if p:
                        self.clears.setdefault(f.name, {}).setdefault(p[0], set()).add(p[1])


def path(f, v):
    """(parameter, constant field steps)"""
    steps = []
    while isinstance(v, int) and v >= len(f.args):
        d = f.defs[v]
        if d.op != "getelementptr":
            return None
        steps = [("f", s[1], s[2]) for s in d.steps if s[0] == "f"] + steps
        v = d.ops[0]
    return (v, tuple(steps)) if isinstance(v, int) else None


def interesting(R, f):
    for i in f.insts():
        if i.op in ("call", "invoke") and i.callee_full and (i.callee_full in SIZED or i.callee_full in UNSIZED or i.callee_full == "fread" or i.callee_full in R.oblige or i.callee_full in R.needs):
            return True
        if i.op == "getelementptr" and any(s[0] in "ip" and isinstance(s[1], int) for s in i.steps) or i.op == "store" and walkbase(f, i.ops[1]):
            return True
    return False


def run(w, res):
    r = R(w)
    hits = {}
    sites = {}
    nf = set()
    todo = [w.m.funcs[n] for n in w.bottom_up() if n in w.m.funcs]
    for rnd in range(8):
        again = []
        for f in todo:
            if f.decl or f.inlinedAway or not interesting(r, f):
                continue
            c = Writes(r, f)
            e = Engine(w, f, c).run()
            if (c.hits or any(x[2] == "any" for x in c.newob)) and not e.over:
                # once more with more paths kept apart
                c2 = Writes(r, f)
                c2.K = 24
                e2 = Engine(w, f, c2).run()
                if not e2.over:
                    c = c2
            nf.add(f.name)
            if e.over:
                res.assume("%s is too large to follow completely" % f.dname)
            r.newoblige |= c.newob
            for k, x in c.hits.items():
                hits[(f.dname,) + k] = x
            sites.update(c.sites)
        new = {}
        for n, d, z in r.newoblige:
            new.setdefault(n, set()).add((d, z))
        need = {}
        for n, k, size, fn, name in r.newneeds:
            need.setdefault(n, set()).add((k, size, fn, name))
        if (new, need) == (r.oblige, r.needs):
            break
        r.oblige, r.needs = new, need
        todo = [f for f in w.m.defined() if any(i.op in ("call", "invoke") and (i.callee_full in new or i.callee_full in need) for i in f.insts())]
    else:
        raise RuntimeError("requirements on callers do not settle")
    callers = w.m.callers()
    for n in sorted(r.oblige):
        f = w.m.funcs[n]
        for kd, ks in sorted(r.oblige[n], key=repr):
            if ks == "any" and n in w.api and not f.inlinedAway and any(q != kd and f.argtypes[q] in ("i32", "i64") and re.search("len|size|cap|n$", x, re.I) for q, x in enumerate(f.argnames)):
                hits[(f.dname, f.argnames[kd], "%s:%d" % (f.file, f.line0))] = (None, "writes into the caller's buffer %s without regard to its size" % f.argnames[kd], "")
    for n in sorted(r.needs):
        f = w.m.funcs[n]
        if n in w.api or not callers.get(n):
            for k, size, fn, name in sorted(r.needs[n]):
                if not f.inlinedAway:
                    hits[(f.dname, name, "%s:%d" % (f.file, f.line0))] = (None, "%s copies its argument %s, of any length, into %s, which has %d bytes" % (fn, f.argnames[k], name, size), "")
    for (fn, name, where), (i, what, tr) in sorted(hits.items()):
        res.add("C13.end" if "without an end" in what else "C13.write", fn, name, where, "%s: %s" % (fn, what), tr)
    res.count("functions", len(nf), 60)
    res.count("writes_into_fixed_size_arrays", len(sites), 100)
    res.count("buffers_of_callers", sum(len(x) for x in r.oblige.values()))
