"""Frame headers are read back field by field as they were written, and both sides agree where the payload starts."""
from engine import *
from ir import ap

H = "rtMessageHeader"
ENC, DEC = H + "_Encode", H + "_Decode"
# primitive -> (width in bytes or None for text, argument holding the cursor, encode?)
PRIM = {"rtEncoder_EncodeUInt16": (2, True), "rtEncoder_EncodeUInt32": (4, True), "rtEncoder_DecodeUInt16": (2, False), "rtEncoder_DecodeUInt32": (4, False),
        "rtEncoder_EncodeString": (None, True), "rtEncoder_DecodeStr": (None, False)}
SWAPS = {"htons": 2, "ntohs": 2, "htonl": 4, "ntohl": 4, "llvm.bswap.i16": 2, "llvm.bswap.i32": 4}
MARKER = 0xAAAA
# bytes of a header field that are on the wire only in part: what the sender puts there fits in them
NARROW = {"T1", "T2", "T3", "T4", "T5"}


def lin(v, k=1, out=None):
    """linear form of a value: {term: coefficient, 1: constant}"""
    if out is None:
        out = {}
    if v[0] == "c":
        out[1] = out.get(1, 0) + k * v[1]
    elif v[0] == "op" and v[1] == "add":
        lin(v[2], k, out)
        lin(v[3], k, out)
    elif v[0] == "op" and v[1] == "sub" and offset(v[2], v[3]) is not None:
        for t, c in offset(v[2], v[3]).items():
            out[t] = out.get(t, 0) + k * c
    elif v[0] == "op" and v[1] == "sub":
        lin(v[2], k, out)
        lin(v[3], -k, out)
    elif v[0] == "op" and v[1] == "mul" and v[3][0] == "c":
        lin(v[2], k * v[3][1], out)
    elif v[0] == "op" and v[1] in ("zext", "sext", "trunc"):
        lin(v[2], k, out)
    else:
        out[v] = out.get(v, 0) + k
    return {t: c for t, c in out.items() if c}


def sub(a, b):
    o = dict(a)
    for t, c in b.items():
        o[t] = o.get(t, 0) - c
    return {t: c for t, c in o.items() if c}


def strip0(a):
    """address without trailing zero indices"""
    if a[0] == "gep":
        s = list(a[2])
        while s and s[-1][0] == "i" and s[-1][1] == ZERO:
            s.pop()
        return mkgep(a[1], s)
    return a


def offset(a, base):
    """linear offset of address a from base, both byte pointers"""
    if a == base:
        return {}
    a0, b0 = (a[1], a[2]) if a[0] == "gep" else (a, ()), (base[1], base[2]) if base[0] == "gep" else (base, ())
    if a0[0] != b0[0] or a0[1][:len(b0[1])] != b0[1]:
        return None
    o = {}
    for s in a0[1][len(b0[1]):]:
        if s[0] != "i":
            return None
        lin(s[1], 1, o)
    return {t: c for t, c in o.items() if c}


def adv(cur, n):
    """cursor moved on by n, in one step per kind of term"""
    b, s = (cur[1], [x[1] for x in cur[2]]) if cur[0] == "gep" and all(x[0] == "i" for x in cur[2]) else (cur, [])
    c = 0
    rest = []
    for x in s + ([n[2], n[3]] if n[0] == "op" and n[1] == "add" else [n]):
        if x[0] == "c":
            c += x[1]
        else:
            rest.append(x)
    return mkgep(b, [("i", x) for x in rest] + [("i", ("c", c))])


def fieldof(a):
    a = strip0(a)
    if a[0] == "gep" and a[2] and a[2][-1][0] == "f" and a[2][-1][1] == H:
        return a[2][-1][2]
    return None


class Prim(Client):
    """one primitive on its own"""
    K = 8
    DEPTH = 12

    def __init__(self):
        self.writes = []
        self.outs = []
        self.rets = []

    def init_ts(self, fn):
        return ()

    def on_call(self, eng, st, i, args):
        n = i.callee_full
        if n and (n.startswith("llvm.memcpy") or n.startswith("llvm.memmove") or n in ("memcpy", "memmove")):
            src = st.mem.get(args[1]) if root(args[1])[0] == "al" else ("at", args[1])
            st.ts = st.ts + ((args[0], src, st.const(args[2]) if st.const(args[2]) is not None else args[2]),)
            self.cp = (args[0], args[1], args[2])
        elif n in PRIM and PRIM[n][1] and PRIM[n][0]:
            self.cur = self.cursor(eng, st, i, args[0])
            st.ts = st.ts + ((self.cur, ("prim", args[1]), PRIM[n][0]),)
        return None

    def cursor(self, eng, st, i, cell):
        v = st.mem.get(cell)
        if v is None:
            v = ("v", "cursor", 0)
            st.mem[cell] = v
        return v

    def on_load(self, eng, st, i, a):
        if a == ("p", 0):
            st.regs[i.id] = self.cursor(eng, st, i, a)
            return [st]
        o = offset(a, CUR)
        if o is not None and set(o) <= {1} and i.ty == "i8":
            st.regs[i.id] = ("op", "byte", ("c", o.get(1, 0)), ZERO)
            return [st]

    def on_store(self, eng, st, i, a, v):
        o = offset(a, CUR)
        if o is not None and set(o) <= {1} and a != ("p", 0):
            st.ts = st.ts + ((a, ("byte", v), o.get(1, 0)),)

    def after_call(self, eng, st, i, args):
        n = i.callee_full
        if n in SWAPS:
            st.regs[i.id] = ("op", "swap%d" % SWAPS[n], args[0], ZERO)
        elif n == "strlen":
            st.regs[i.id] = ("op", "len", strip0(args[0]), ZERO)
        elif n and (n.startswith("llvm.memcpy") or n.startswith("llvm.memmove") or n in ("memcpy", "memmove")):
            d, s, k = self.cp
            if root(s)[0] != "al" and root(d)[0] == "al":
                st.mem[d] = ("op", "raw", s, k)
        elif n in PRIM and PRIM[n][1] and PRIM[n][0]:
            st.mem[args[0]] = mkgep(self.cur, [("i", ("c", PRIM[n][0]))])

    def on_ret(self, eng, st, i, val):
        self.rets.append((st.ts, st.mem.get(("p", 0)), st.mem.get(("p", 1)), i, trail_text(st, 4)))


CUR = ("v", "cursor", 0)


def norm(v):
    while v is not None and v[0] == "op" and v[1] in ("zext", "sext", "trunc"):
        v = v[2]
    return v


def bytewise(v, out, sh=0):
    """value put together from bytes: {byte's offset: shift}; of a stored byte: {parameter: shift}"""
    v = norm(v)
    if v == ZERO:
        return True
    if v[0] == "op" and v[1] in ("or", "add"):
        return bytewise(v[2], out, sh) and bytewise(v[3], out, sh)
    if v[0] == "op" and v[1] == "shl" and v[3][0] == "c":
        return bytewise(v[2], out, sh + v[3][1])
    if v[0] == "op" and v[1] in ("lshr", "ashr") and v[3][0] == "c":
        return bytewise(v[2], out, sh - v[3][1])
    if v[0] == "op" and v[1] == "mul" and v[3][0] == "c" and v[3][1] in (256, 65536, 1 << 24):
        return bytewise(v[2], out, sh + v[3][1].bit_length() - 1)
    if v[0] == "op" and v[1] == "and" and v[3] in (("c", 255), ("c", 0xffff), ("c", 0xffffffff)):
        return bytewise(v[2], out, sh)
    k = v[2][1] if v[0] == "op" and v[1] == "byte" else v if v[0] == "p" else None
    if k is None or k in out:
        return False
    out[k] = sh
    return True


def bytes_right(width, enc, copies, out):
    if enc:
        pos = {}
        for a, v, o in copies:
            r = {}
            if v is None or v[0] != "byte" or not bytewise(v[1], r) or set(r) != {("p", 1)}:
                return False
            pos[o] = -r[("p", 1)]
        return pos == {k: 8 * (width - 1 - k) for k in range(width)}
    r = {}
    return not copies and out is not None and bytewise(out, r) and r == {k: 8 * (width - 1 - k) for k in range(width)}


def primitive(w, res, name):
    f = w.m.fn(name)
    width, enc = PRIM[name]
    c = Prim()
    if Engine(w, f, c).run().over or not c.rets:
        raise RuntimeError("cannot follow " + name)
    bad = lambda what, i, tr: res.add("C11.primitive", name, what.split()[0], i.where(), "%s %s" % (name, what), tr)
    for copies, cur, out, i, tr in c.rets:
        o = offset(cur, CUR) if cur is not None else None
        if width:
            if o != {1: width}:
                bad("advances the cursor by %s, not by %d" % (o, width), i, tr)
            if enc:
                wr = [x for x in copies if x[0] == CUR]
                if bytes_right(width, True, copies, None):
                    continue
                if len(copies) != 1 or len(wr) != 1 or wr[0][2] != width or norm(wr[0][1]) != ("op", "swap%d" % width, ("p", 1), ZERO):
                    bad("writes something else than its argument's %d bytes in network order" % width, i, tr)
            else:
                rd = norm(out)
                if bytes_right(width, False, copies, out):
                    continue
                if rd is None or rd[:2] != ("op", "swap%d" % width) or rd[2] != ("op", "raw", CUR, ("c", width)):
                    bad("stores something else than the next %d bytes in host order" % width, i, tr)
        elif enc:
            # text: its length as 32 bits, then exactly that many bytes
            nums = [x for x in copies if x[1] and x[1][0] == "prim"]
            txt = [x for x in copies if x not in nums]
            n = norm(nums[0][1][1]) if len(nums) == 1 else None
            tn = txt[0][2] if len(txt) == 1 else None
            if len(nums) != 1 or nums[0][0] != CUR or nums[0][2] != 4 or len(txt) != 1 or offset(txt[0][0], CUR) != {1: 4} or txt[0][1] != ("at", ("p", 1)) or norm(tn if isinstance(tn, tuple) else ("c", tn)) != n:
                bad("writes something else than a length and that many bytes of text", i, tr)
            elif o != {1: 4, n: 1} and o != {1: 4 + (n[1] if n[0] == "c" else 0)}:
                bad("advances the cursor by something else than what it wrote", i, tr)
        else:
            if len(copies) != 1 or copies[0][0] != ("p", 1) or copies[0][1] != ("at", CUR) or copies[0][2] != ("p", 2) and norm(copies[0][2]) != ("p", 2):
                bad("copies something else than the given number of bytes", i, tr)
            elif o != {("p", 2): 1}:
                bad("advances the cursor by something else than what it copied", i, tr)


class Layout(Client):
    """the sequence of primitives a header function applies; typestate: tuple of items"""
    K = 32
    KHEAD = 32
    DEPTH = 40

    def __init__(self, enc):
        self.enc = enc
        self.rets = []
        self.bad = []

    def init_ts(self, fn):
        return ((), ())          # items, comparisons decided on the way

    def ts_live(self, ts):
        return ts[1]

    def on_branch(self, eng, st, i, cond):
        if cond[0] == "op" and cond[1] in ("icmp eq", "icmp ne") and cond[2][0] != "c" and cond[3][0] != "c":
            k = ("op", "icmp eq") + tuple(sorted((cond[2], cond[3]), key=repr))
            if k not in st.ts[1]:
                st.ts = (st.ts[0], st.ts[1] + (k,))

    def src(self, st, v):
        """header field a value was loaded from"""
        v = norm(v)
        for k, x in st.mem.items():
            if x == v and v[0] != "c" and root(k) == ("p", 0) and fieldof(k):
                return fieldof(k)
        return None

    def on_load(self, eng, st, i, a):
        return None

    def on_store(self, eng, st, i, a, v):
        """a text that was read is only terminated where it ends"""
        if self.enc:
            return
        for it in st.ts[0]:
            if it[2][0] == "text" and it[2][1] and root(a) == ("p", 0) and a[0] == "gep" and any(x[0] == "f" and x[2] == it[2][1] for x in a[2]):
                k = [n for n, x in enumerate(a[2]) if x[0] == "f" and x[2] == it[2][1]][0]
                o = offset(a, mkgep(a[1], a[2][:k + 1]))
                if st.const(v) != 0 or o is None or o != lin(it[1] if isinstance(it[1], tuple) else ("c", it[1])):
                    self.bad.append((i, "changes %s after it was read" % it[2][1], trail_text(st, 4)))

    def on_call(self, eng, st, i, args):
        n = i.callee_full
        self.tmp = None
        if n not in PRIM:
            if n and (n.startswith("llvm.memcpy") or n in ("memcpy", "memmove")) and any(root(a) == ("p", 1) for a in args[:2]):
                self.bad.append((i, "moves bytes of the frame without the encoder's primitives", trail_text(st, 4)))
            return None
        width, enc = PRIM[n]
        cur = st.mem.get(args[0])
        o = offset(cur, ("p", 1)) if cur is not None else None
        if enc != self.enc or o is None:
            self.bad.append((i, "uses %s on something else than the frame" % n, trail_text(st, 4)))
            return None
        k = len(st.ts[0])
        off = tuple(sorted(o.items(), key=repr))
        if enc and width:
            v = args[1]
            c = st.const(v)
            st.ts = (st.ts[0] + ((off, width, ("const", c & 0xffffffff >> (32 - 8 * width)) if c is not None else ("field", self.src(st, v)), i),), st.ts[1])
            self.tmp = (cur, ("c", width))
        elif enc:
            a = strip0(args[1])
            if st.isnull(args[2]) is not True:
                self.bad.append((i, "writes a text with a length of its own", trail_text(st, 4)))
            ln = ("op", "len", a, ZERO)
            o2 = dict(o)
            o2[1] = o2.get(1, 0) + 4
            st.ts = (st.ts[0] + ((off, 4, ("len", fieldof(a)), i), (tuple(sorted(o2.items(), key=repr)), ln, ("text", fieldof(a)), i)), st.ts[1])
            self.tmp = (cur, ("op", "add", ln, ("c", 4)))
        elif width:
            d = strip0(args[1])
            st.ts = (st.ts[0] + ((off, width, ("to", fieldof(d) if root(d) == ("p", 0) else None), i),), st.ts[1])
            self.tmp = (cur, ("c", width), args[1], ("op", "rd", ("c", k), ("c", width)))
            for s in i.fn.defs[i.ops[1]].steps if isinstance(i.ops[1], int) and i.fn.defs.get(i.ops[1]) is not None and i.fn.defs[i.ops[1]].steps else ():
                if s[0] == "f" and s[1] == H and s[4] != width and s[2] not in NARROW:
                    self.bad.append((i, "reads %d bytes into %s, which has %d" % (width, s[2], s[4]), trail_text(st, 4)))
        else:
            st.ts = (st.ts[0] + ((off, norm(args[2]), ("text", fieldof(args[1])), i),), st.ts[1])
            lo, hi = st.rng(args[2])
            lo2, hi2 = st.rng(norm(args[2]))
            hi = min(hi, hi2)
            size = {x[0]: x[3] for x in self.w.m.structs[H]}[fieldof(args[1])] if fieldof(args[1]) else 0
            if not hi < size or not max(lo, lo2) >= 0:
                self.bad.append((i, "copies a text of unchecked length into %s" % fieldof(args[1]), trail_text(st, 4)))
            self.tmp = (cur, norm(args[2]))
        return None

    def after_call(self, eng, st, i, args):
        n = i.callee_full
        if n == "strlen":
            st.regs[i.id] = ("op", "len", strip0(args[0]), ZERO)
        if self.tmp is None:
            return None
        st.mem[args[0]] = adv(self.tmp[0], self.tmp[1])
        if len(self.tmp) > 2:
            st.mem[self.tmp[2]] = self.tmp[3]
        return None

    def on_ret(self, eng, st, i, val):
        self.rets.append((st.ts[0], st, val, i, trail_text(st, 8)))


def end(items):
    o = dict(items[-1][0])
    x = items[-1][1]
    lin(x if isinstance(x, tuple) else ("c", x), 1, o)
    return {t: c for t, c in o.items() if c}


def contiguous(res, fn, items, tr):
    pos = {}
    for off, width, what, i in items:
        if dict(off) != pos:
            res.add("C11.position", fn, what[1] if isinstance(what[1], str) else str(what[0]), i.where(), "%s has %s not right behind the field before it" % (fn, what[1]), tr)
            return
        lin(width if isinstance(width, tuple) else ("c", width), 1, pos)
        pos = {t: c for t, c in pos.items() if c}


def loads(fn, v):
    """header (or reader) field that a value was loaded from, by the instruction that made it"""
    v = norm(v) if v is not None else None
    if v is None or v[0] != "v" or not isinstance(v[1], int):
        return None
    d = fn.defs.get(v[1])
    if d is None or d.op != "load":
        return None
    a = ap(fn, d.ops[0])
    while a[0] == "idx":
        a = a[1]
    return a[3] if a[0] == "fld" else None


class Send(Client):
    """an encoded header is sent with its own length, followed by the payload whose length it announces
    typestate: ((header, buffer, Encode's id) or None, payload lengths stored per header, io vector cells)"""
    K = 4
    MAXSTEPS = 60000

    def __init__(self, R):
        self.R = R
        self.hits = {}
        self.n = set()

    def init_ts(self, fn):
        return (None, (), ())

    def ts_live(self, ts):
        return (list(ts[0][:2]) if ts[0] else []) + [x for p in ts[1] for x in p] + [x[3] for x in ts[2]]

    def hit(self, i, key, what, st):
        self.hits.setdefault((key, i.where()), (what, trail_text(st, 6)))

    def on_store(self, eng, st, i, a, v):
        lf = lastfield(a)
        if lf == (H, "payload_length"):
            h = self.owner(a)
            st.ts = (st.ts[0], tuple(x for x in st.ts[1] if x[0] != h) + ((h, v),), st.ts[2])
        elif lf and lf[0] == "iovec" and a[0] == "gep":
            idx = [s[1] for s in a[2] if s[0] == "i"]
            if all(x[0] == "c" for x in idx):
                k = (root(a), sum(x[1] for x in idx), lf[1])
                st.ts = (st.ts[0], st.ts[1], tuple(x for x in st.ts[2] if x[:3] != k) + (k + (v,),))

    def owner(self, a):
        s = list(a[2])
        while s and s[-1][0] == "i":
            s.pop()
        return strip0(mkgep(a[1], s[:-1]))

    def on_call(self, eng, st, i, args):
        n = i.callee_name
        self.keep = None
        if n == ENC:
            h = strip0(args[0])
            st.ts = ((h, strip0(args[1]), i.id), st.ts[1], st.ts[2])
            self.keep = (h, dict(st.mem))
        elif n == "sendmsg":
            if st.ts[0] is not None:
                self.sent(eng, st, i, args)
        elif n is not None:
            for k, a in enumerate(args):
                if any(strip0(a) == x[0] for x in st.ts[1]) and (n not in self.w.m.funcs or self.w.m.funcs[n].decl or k in self.w.writes_param(n)):
                    st.ts = (st.ts[0], tuple(x for x in st.ts[1] if x[0] != strip0(a)), st.ts[2])
        return None

    def after_call(self, eng, st, i, args):
        if i.callee_name == ENC and self.keep:
            # all that the encoder writes is the buffer and the header's length
            h, mem = self.keep
            st.mem.clear()
            st.mem.update(mem)
            st.mem[mkgep(h, [("f", H, "header_length")])] = ("op", "hlen", h, ZERO)
        return None

    def sent(self, eng, st, i, args):
        f = i.fn
        (h, buf, enc), pls, iovs = st.ts
        vec = cnt = None
        for k, x in st.mem.items():
            if root(k) == root(args[1]) and k[0] == "gep" and k[2][-1][0] == "f":
                if k[2][-1][2] == "msg_iov":
                    vec = x
                elif k[2][-1][2] == "msg_iovlen":
                    cnt = st.const(x)
        if vec is None or cnt is None:
            return
        v = {x[1:3]: x[3] for x in iovs if x[0] == root(vec)}
        b0, l0, l1 = v.get((0, "iov_base")), v.get((0, "iov_len")), v.get((1, "iov_len"))
        if b0 is None or l0 is None:
            return
        self.n.add(i.where())
        if cnt != 2:
            self.hit(i, "shape", "sends a frame in some other shape than header and payload", st)
            return
        if strip0(b0) != buf and not (loads(f, b0) and loads(f, b0) == loads(f, buf)):
            self.hit(i, "first", "does not send the encoded header first", st)
        hl = norm(l0)
        d = f.defs.get(hl[1]) if hl[0] == "v" else None
        if hl != ("op", "hlen", h, ZERO) and not (loads(f, hl) == "header_length" and not before(f, d, f.defs[enc])):
            self.hit(i, "length", "sends another number of header bytes than the length of the header just encoded", st)
        if l1 is None:
            return
        pl = [x[1] for x in pls if x[0] == h]
        pl = norm(pl[0]) if pl else None
        l1 = norm(l1)
        if pl is not None and lin(l1) == lin(pl):
            return
        if loads(f, l1) == "payload_length" and (pl is None or loads(f, pl) != "payload_length"):
            return
        src = pl
        if pl is None and h[0] == "p":
            src = ("field", h)
        elif pl is not None and loads(f, pl) == "payload_length":
            a = ap(f, f.defs[pl[1]].ops[0])[1]
            src = ("field", a) if a[0] == "arg" else pl
        if src is not None and src[0] == "field" and l1[0] == "p":
            b1 = v.get((1, "iov_base"))
            self.R.oblige.add((f.name, src[1][1], b1[1] if b1 and b1[0] == "p" else None, l1[1]))
        elif pl is not None:
            self.hit(i, "payload", "sends another number of payload bytes than the header announces", st)


def before(f, a, b):
    """instruction a is executed before b, always"""
    return a is not None and a is not b and f.dominates(a, b)


class Handoff(Client):
    """calls of functions that send on what they are given: the payload and its length fit the header"""
    K = 4

    def __init__(self, w, need):
        self.w = w
        self.need = need          # call id -> set of (header arg, buffer arg, length arg)
        self.hits = {}
        self.n = 0

    def on_call(self, eng, st, i, args):
        for kh, kb, kl in self.need.get(i.id, ()):
            self.n += 1
            h = strip0(args[kh])
            f = i.fn
            pl = st.mem.get(mkgep(h, [("f", H, "payload_length")]))
            n = norm(args[kl])
            if not (pl is not None and norm(pl) == n or loads(f, n) == "payload_length"):
                if n[0] != "p":
                    self.hits.setdefault(("length", i.where()), ("hands on another number of payload bytes than the header announces", trail_text(st, 5)))
            if kb is not None:
                b = args[kb]
                last = b[2][-1] if b[0] == "gep" and b[2] else None
                hl = st.mem.get(mkgep(h, [("f", H, "header_length")]))
                known = last is not None and last[0] == "i" or loads(f, b) is not None
                x = norm(last[1]) if last is not None and last[0] == "i" else None
                if known and not (x is not None and (x == hl or loads(f, x) == "header_length")):
                    self.hits.setdefault(("start", i.where()), ("hands on a payload that does not start right behind the header", trail_text(st, 5)))
        return None


class Recv(Client):
    """a reader: preamble, then what the header length says is left of the header, then the payload length"""
    K = 6
    MAXSTEPS = 60000

    def __init__(self, w):
        self.w = w
        self.hits = {}
        self.seen = set()
        self.reads = []

    def hit(self, i, key, what, st):
        self.hits.setdefault((key, i.where()), (what, trail_text(st, 5)))

    def on_call(self, eng, st, i, args):
        n = i.callee_name
        self.tmp = None
        if n in PRIM and not PRIM[n][1] and PRIM[n][0]:
            cur = st.mem.get(args[0])
            if cur is not None:
                self.tmp = (cur, PRIM[n][0], args[1])
                if self.at(cur) is not None:
                    self.reads.append((i, self.at(cur), PRIM[n][0]))
        elif n == "rtConnection_ReadUntil":
            self.amount(st, i, args[2], None)
            if self.kind(i.fn, args[2]) == "rest":
                o = [s[1] for s in args[1][2] if s[0] == "i"] if args[1][0] == "gep" else []
                if sum((x[1] if x[0] == "c" else 1 << 20) for x in o) != self.PRE:
                    self.hit(i, "rest", "does not put the rest of the header right behind its start", st)
        return None

    def at(self, cur):
        """constant offset of a cursor from the start of the buffer"""
        o = 0
        for s in (cur[2] if cur[0] == "gep" else ()):
            if s[0] == "i":
                if s[1][0] != "c":
                    return None
                o += s[1][1]
        return o

    def kind(self, fn, n):
        l = lin(n)
        if any(isinstance(t, tuple) and (t[:2] == ("op", "hdr") or loads(fn, t) == "header_length") for t in l):
            return "rest"
        if any(isinstance(t, tuple) and loads(fn, t) == "payload_length" for t in l):
            return "data"
        return "start" if set(l) <= {1} and l else None

    def amount(self, st, i, n, old):
        """n bytes are awaited, counted on top of old"""
        f = i.fn
        l = lin(n)
        if old is not None:
            for t in list(l):
                if isinstance(t, tuple) and (t == old or loads(f, t) == "bytes_to_read") and l[t] == 1:
                    del l[t]
        elif loads(f, norm(n)) == "bytes_to_read":
            return
        k = self.kind(f, n)
        if k is None:
            return
        self.seen.add(k)
        if k == "start":
            if l.get(1, 0) != self.PRE:
                self.hit(i, "start", "takes %d bytes for the start of a header" % l.get(1, 0), st)
            return
        t = [x for x in l if isinstance(x, tuple)]
        if k == "rest":
            ok = len(t) == 1 and l[t[0]] == 1 and l.get(1, 0) == -self.PRE
            if ok and t[0][:2] == ("op", "hdr"):
                ok = (t[0][2], t[0][3]) == (("c", self.HL[0]), ("c", self.HL[1]))
            if not ok:
                self.hit(i, "rest", "does not read exactly the rest of the header", st)
        elif not (len(t) == 1 and l[t[0]] == 1 and l.get(1, 0) == 0):
            self.hit(i, "data", "does not read exactly the announced number of payload bytes", st)

    def after_call(self, eng, st, i, args):
        if self.tmp:
            cur, wd, d = self.tmp
            st.mem[args[0]] = mkgep(cur, [("i", ("c", wd))])
            if self.at(cur) is not None:
                st.mem[d] = ("op", "hdr", ("c", self.at(cur)), ("c", wd))
            self.tmp = None
        return None

    def on_store(self, eng, st, i, a, v):
        lf = lastfield(a)
        if lf and lf[1] == "bytes_to_read":
            self.amount(st, i, v, st.mem.get(a) or ZERO)


class R:
    pass


def run(w, res):
    m = w.m
    for n in sorted(PRIM):
        primitive(w, res, n)
    lay = {}
    for n, enc in ((ENC, True), (DEC, False)):
        c = Layout(enc)
        c.w = w
        f = m.fn(n)
        if Engine(w, f, c).run().over:
            raise RuntimeError("cannot follow " + n)
        for i, what, tr in c.bad:
            res.add("C11.header", n, what.split(" on ")[0].split(" into ")[-1].replace(" ", "_")[:40], i.where(), "%s %s" % (n, what), tr)
        lay[n] = [r for r in c.rets if st_ok(r)]
        if not lay[n]:
            raise RuntimeError("%s never succeeds" % n)
        for items, st, val, i, tr in lay[n]:
            contiguous(res, n, items, tr)
    nfield = 0
    eitems = None
    for items, st, val, i, tr in lay[ENC]:
        hl = [v for k, v in st.mem.items() if fieldof(k) == "header_length" and root(k) == ("p", 0)]
        if not hl or lin(hl[0]) != end(items):
            res.add("C11.length", ENC, "header_length", i.where(), "%s announces a header length of %s, but writes %s" % (ENC, show(lin(hl[0])) if hl else "nothing", show(end(items))), tr)
        if eitems is None:
            eitems = items
        elif [x[1:3] for x in items] != [x[1:3] for x in eitems]:
            res.add("C11.header", ENC, "paths", i.where(), "%s writes different headers on different paths" % ENC, tr)
    for items, st, val, i, tr in lay[DEC]:
        rd = [x for x in items]
        if len(rd) != len(eitems):
            res.add("C11.header", DEC, "fields", i.where(), "%s writes %d fields, %s reads %d" % (ENC, len(eitems), DEC, len(rd)), tr)
            continue
        for k, (e, d) in enumerate(zip(eitems, rd)):
            nfield += 1
            kind, name = e[2]
            where = d[3].where()
            if kind == "text":
                if d[2] != ("text", name):
                    res.add("C11.field", DEC, str(name), where, "%s reads something else where %s writes the text %s" % (DEC, ENC, name), tr)
                elif d[1] != ("op", "rd", ("c", k - 1), ("c", 4)):
                    res.add("C11.field", DEC, str(name), where, "%s does not take the length of %s that was sent with it" % (DEC, name), tr)
                continue
            if d[1] != e[1]:
                res.add("C11.field", DEC, str(name), where, "%s reads %s bytes where %s writes %s for %s" % (DEC, d[1], ENC, e[1], name), tr)
                continue
            want = name + "_length" if kind == "len" else name if kind == "field" else {MARKER: None, 2: "version"}.get(name)
            kept = {fieldof(a) for a, v in st.mem.items() if root(a) == ("p", 0) and fieldof(a) and norm(v) == ("op", "rd", ("c", k), ("c", e[1]))}
            if kind == "field" and name is None or (want not in kept if want else kept):
                res.add("C11.field", DEC, str(want or name), where, "%s leaves %s where %s writes %s" % (DEC, "it in " + ", ".join(sorted(kept)) if kept else "something else than what it read", ENC, name), tr)
            if kind == "const" and name == MARKER and st.const(("op", "rd", ("c", k), ("c", 2))) not in (MARKER, MARKER - 65536):
                res.add("C11.reject", DEC, "marker at %s" % show(dict(e[0])), i.where(), "%s accepts a header without the marker at its %s" % (DEC, "start" if k == 0 else "end"), tr)
        # the length the sender announced is the one that was read
        hk = [k for k, e in enumerate(eitems) if e[2] == ("field", "header_length")]
        o = end(rd)
        sym = ("op", "rd", ("c", hk[0]), ("c", 2)) if hk else None
        if sym is None or not agreed(st, sym, o):
            res.add("C11.reject", DEC, "header_length", i.where(), "%s accepts a header whose length is not the one it announces" % DEC, tr)
    # the frame on the wire
    r = R()
    r.oblige = set()
    ns = nr = nh = 0

    def users(n):
        return [f for f in (m.funcs[x] for x in sorted({i.fn.name for i in m.callers().get(n, ())})) if not f.inlinedAway]
    for f in users(ENC):
        c = Send(r)
        c.w = w
        c.keep = None
        if Engine(w, f, c).run().over:
            raise RuntimeError("cannot follow " + f.dname)
        ns += len(c.n)
        for (key, where), (what, tr) in sorted(c.hits.items()):
            res.add("C11.frame", f.dname, key, where, "%s %s" % (f.dname, what), tr)
    if ns:
        need = {}
        for n, kh, kb, kl in sorted(r.oblige, key=repr):
            for f in m.defined():
                for i in f.insts():
                    if i.op in ("call", "invoke") and (i.callee_full == n or i.callee_name is None and n in (w.targets_known(f, i) or ())):
                        need.setdefault(f.name, {}).setdefault(i.id, set()).add((kh, kb, kl))
        for n in sorted(need):
            c = Handoff(w, need[n])
            if Engine(w, m.funcs[n], c).run().over:
                raise RuntimeError("cannot follow " + n)
            nh += c.n
            for (key, where), (what, tr) in sorted(c.hits.items()):
                res.add("C11.frame", m.funcs[n].dname, key, where, "%s %s" % (m.funcs[n].dname, what), tr)
    # readers
    pre = {e[2][1]: (dict(e[0]).get(1, 0), e[1]) for e in eitems if e[2][0] == "field" and set(dict(e[0])) <= {1}}
    fields = {(dict(e[0]).get(1, 0), e[1]) for e in eitems if set(dict(e[0])) <= {1}}
    for f in users(DEC):
        c = Recv(w)
        c.HL = pre["header_length"]
        c.PRE = c.HL[0] + c.HL[1]
        if Engine(w, f, c).run().over:
            raise RuntimeError("cannot follow " + f.dname)
        nr += len(c.seen)
        for i, o, wd in c.reads:
            if (o, wd) not in fields:
                res.add("C11.preamble", f.dname, str(o), i.where(), "%s reads %d bytes at %d of a header, where no such field is" % (f.dname, wd, o), "")
        for (key, where), (what, tr) in sorted(c.hits.items()):
            res.add("C11.frame", f.dname, key, where, "%s %s" % (f.dname, what), tr)
    res.count("primitives", len(PRIM), 6)
    res.count("header_fields_compared", nfield, 10)
    res.count("frames_sent", ns, 2)
    res.count("payloads_handed_on", nh)
    res.count("reader_steps", nr, 3)
    res.rule("C11.primitive: each encoder primitive moves exactly its width, in network order, and advances the cursor by it; C11.position/length/field: the encoder's fields are contiguous, add up to the announced "
             "length and are read back by the decoder in the same order, width and field; C11.reject: the decoder succeeds only with both markers in place, text lengths that fit, and the announced length; "
             "C11.frame/preamble: senders send header_length then payload_length bytes, readers read the fixed start, header_length less the start, then payload_length")


def agreed(st, sym, o):
    """the path knows sym == o"""
    want = sub({sym: 1}, o)
    for k, f in st.facts.items():
        if k[0] != "op" or f[0] != f[1]:
            continue
        l = None
        if k[1] in ("sub", "add") and f[0] == 0:
            l = lin(k)
        elif (k[1], f[0]) in (("icmp eq", 1), ("icmp ne", 0)):
            l = diff(k[2], k[3])
        if l is not None and (l == want or sub({}, l) == want):
            return True
    return False


def diff(a, b):
    o = offset(a, b)
    return sub(lin(a), lin(b)) if o is None else o


def show(l):
    return " + ".join("%s" % (c if t == 1 else "len" if t[:2] == ("op", "len") else t) for t, c in sorted(l.items(), key=repr)) or "0"


def st_ok(r):
    return r[1].const(r[2]) == 0
