"""Resolved-program model: loads the JSON written by irdump (LLVM IR after helper inlining and SSA promotion)."""
import json, re
from collections import defaultdict


class Inst:
    __slots__ = ("id", "op", "ty", "ops", "callee", "succ", "cases", "default", "pred", "steps", "name",
                 "loc", "at", "size", "rmw", "atomic", "vt", "block", "fn", "idx")

    def __repr__(self):
        return "%%%d=%s%s %s" % (self.id, self.op, (" " + str(self.callee)) if self.callee else "", self.ops)

    @property
    def callee_full(self):
        c = self.callee
        return c[1] if isinstance(c, list) and c[0] == "f" else None

    @property
    def callee_name(self):
        """the name in the source; callee_full names the copy analysed for the functions passed at this call (f$callback)"""
        c = self.callee
        return c[1].split("$")[0] if isinstance(c, list) and c[0] == "f" else None

    @property
    def line(self):
        return self.loc[0][0] if self.loc else 0

    def where(self):
        if not self.loc:
            return "%s:?" % (self.fn.file)
        l = self.loc[0]
        s = "%s:%d (%s)" % (short(l[1]), l[0], l[2])
        if len(self.loc) > 1:
            s += " inlined into " + "<-".join("%s:%d" % (x[2], x[0]) for x in self.loc[1:])
        return s


def short(p):
    p = p or "?"
    for pre in ("/repo/",):
        if pre in p:
            p = p.split(pre, 1)[1]
    return p


class Block:
    __slots__ = ("id", "insts", "preds", "succs")


class Func:
    def __init__(self, d):
        self.name = d["name"]
        self.dname = d.get("dname", re.sub(r"\.\d+$", "", d["name"]))
        self.decl = d["decl"]
        self.internal = d["internal"]
        self.vararg = d["vararg"]
        self.ret = d["ret"]
        self.file = short(d.get("file", ""))
        self.line0 = d.get("line", 0)
        self.inlinedAway = d.get("inlinedAway", False)
        self.addrTaken = d.get("addrTaken", False)
        self.taken = d.get("taken", True)
        self.recursive = d.get("recursive", False)
        self.dtypes = d.get("dtypes", [])
        self.args = []
        self.argnames = []
        self.blocks = []
        self.defs = {}
        if self.decl:
            return
        for a in d["args"]:
            self.args.append(a[0])
            self.argnames.append(a[1])
        self.argtypes = [a[2] for a in d["args"]]
        for bi, insts in enumerate(d["blocks"]):
            b = Block()
            b.id = bi
            b.insts = []
            b.preds = []
            b.succs = []
            for k, o in enumerate(insts):
                i = Inst()
                i.id = o["i"]
                i.op = o["op"]
                i.ty = o.get("t")
                i.ops = o["o"]
                i.callee = o.get("callee")
                i.succ = o.get("succ")
                i.cases = o.get("cases")
                i.default = o.get("def")
                i.pred = o.get("pred")
                i.steps = o.get("steps")
                i.name = o.get("n")
                i.loc = o.get("l")
                i.at = o.get("at")
                i.size = o.get("size")
                i.rmw = o.get("rmw")
                i.atomic = o.get("atomic", False)
                i.vt = o.get("vt")
                i.block = b
                i.fn = self
                i.idx = k
                b.insts.append(i)
                self.defs[i.id] = i
            self.blocks.append(b)
        for b in self.blocks:
            t = b.insts[-1]
            s = []
            if t.op == "br":
                s = list(t.succ)
            elif t.op == "switch":
                s = [t.default] + [c[1] for c in t.cases]
            seen = []
            for x in s:
                if x not in seen:
                    seen.append(x)
            b.succs = seen
            for x in seen:
                self.blocks[x].preds.append(b.id)
        self._reach()

    def _reach(self):
        seen = {0}
        st = [0]
        while st:
            x = st.pop()
            for y in self.blocks[x].succs:
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        self.reachable = seen
        for b in self.blocks:
            b.preds = [p for p in b.preds if p in seen]

    def insts(self):
        for b in self.blocks:
            if b.id in self.reachable:
                for i in b.insts:
                    yield i

    def calls(self, *names):
        for i in self.insts():
            if i.op == "call":
                if not names or i.callee_name in names:
                    yield i

    def isarg(self, v):
        return isinstance(v, int) and v < len(self.args)

    # reverse postorder
    def rpo(self):
        if hasattr(self, "_rpo"):
            return self._rpo
        order = []
        seen = set()
        st = [(0, iter(self.blocks[0].succs))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(self.blocks[y].succs)))
                    break
            else:
                order.append(b)
                st.pop()
        self._rpo = order[::-1]
        return self._rpo

    def doms(self):
        """immediate dominators, block level: dict block -> set of dominators"""
        if hasattr(self, "_dom"):
            return self._dom
        rpo = self.rpo()
        allb = set(rpo)
        dom = {b: set(allb) for b in rpo}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [dom[p] for p in self.blocks[b].preds]
                n = set.intersection(*ps) if ps else set()
                n = n | {b}
                if n != dom[b]:
                    dom[b] = n
                    ch = True
        self._dom = dom
        return dom

    def dominates(self, a, b):
        """instruction a dominates instruction b"""
        if a.block is b.block:
            return a.idx < b.idx
        return a.block.id in self.doms()[b.block.id]

    def loops(self):
        """natural loops: header -> set of blocks (merged per header)"""
        if hasattr(self, "_loops"):
            return self._loops
        dom = self.doms()
        res = {}
        for b in self.rpo():
            for s in self.blocks[b].succs:
                if s in dom[b]:
                    body = {s, b}
                    st = [b]
                    while st:
                        x = st.pop()
                        if x == s:
                            continue
                        for p in self.blocks[x].preds:
                            if p not in body:
                                body.add(p)
                                st.append(p)
                    res.setdefault(s, set()).update(body)
        self._loops = res
        return res

    def uses(self):
        if hasattr(self, "_uses"):
            return self._uses
        u = defaultdict(list)

        def add(v, i):
            if isinstance(v, int):
                u[v].append(i)
        for i in self.insts():
            if i.op == "phi":
                for _, v in i.ops:
                    add(v, i)
            else:
                for v in i.ops:
                    add(v, i)
                if i.callee is not None and isinstance(i.callee, int):
                    add(i.callee, i)
                if i.steps:
                    for s in i.steps:
                        if s[0] in ("p", "i"):
                            add(s[1], i)
        self._uses = u
        return u


CASTS = ("bitcast", "zext", "sext", "trunc", "ptrtoint", "inttoptr", "freeze", "addrspacecast")


class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.funcs = {}
        for f in d["functions"]:
            fn = Func(f)
            self.funcs[fn.name] = fn
        self.globals = {g["name"]: g for g in d["globals"]}
        self.structs = d["structs"]
        self.enums = d["enums"]
        self.stats = d["stats"]
        self.enumvals = {}
        for en, vals in self.enums.items():
            for k, v in vals.items():
                self.enumvals[k] = v
        self.by_dname = defaultdict(list)
        for f in self.funcs.values():
            if not f.decl:
                self.by_dname[f.dname].append(f)
        self._callers = None

    def defined(self, include_inlined=False):
        for f in self.funcs.values():
            if not f.decl and (include_inlined or not f.inlinedAway):
                yield f

    def fn(self, name):
        f = self.funcs.get(name)
        if f is None or f.decl:
            c = [x for x in self.by_dname.get(name, [])]
            if c:
                return c[0]
        return f

    def callers(self):
        if self._callers is None:
            c = defaultdict(list)
            for f in self.defined():
                for i in f.calls():
                    if i.callee_name:
                        c[i.callee_full].append(i)
                        if i.callee_full != i.callee_name:
                            c[i.callee_name].append(i)
            self._callers = c
        return self._callers


def strip(fn, v):
    """strip casts"""
    while isinstance(v, int) and v in fn.defs and fn.defs[v].op in CASTS:
        v = fn.defs[v].ops[0]
    return v


def ap(fn, v, depth=0):
    """structural access path of a value (tuple)"""
    if depth > 14:
        return ("deep",)
    if isinstance(v, int):
        if v < len(fn.args):
            return ("arg", v)
        i = fn.defs[v]
        if i.op in CASTS:
            return ap(fn, i.ops[0], depth + 1)
        if i.op == "getelementptr":
            b = ap(fn, i.ops[0], depth + 1)
            for s in i.steps:
                if s[0] == "f":
                    b = ("fld", b, s[1], s[2])
                else:
                    b = ("idx", b, idxkey(fn, s[1], depth))
            return b
        if i.op == "load":
            return ("ld", ap(fn, i.ops[0], depth + 1))
        if i.op == "alloca":
            return ("loc", v)
        if i.op == "phi":
            vs = set()
            for _, x in i.ops:
                vs.add(json.dumps(x))
            return ("phi", v)
        return (i.op, v)
    t = v[0]
    if t == "g":
        return ("glob", v[1])
    if t == "f":
        return ("func", v[1])
    if t == "n":
        return ("null",)
    if t == "c":
        return ("const", v[1])
    if t == "s":
        return ("str", v[1])
    if t == "gep":
        b = ap(fn, v[1], depth + 1)
        for s in v[2]:
            if s[0] == "f":
                b = ("fld", b, s[1], s[2])
            else:
                b = ("idx", b, str(s[1]))
        return b
    if t == "ce":
        return ap(fn, v[2], depth + 1) if v[2] else ("ce",)
    return (t,)


def idxkey(fn, v, depth=0):
    if isinstance(v, int):
        return str(ap(fn, v, depth + 1))
    return str(v[1]) if len(v) > 1 else str(v)


def apstr(fn, p):
    t = p[0]
    if t == "arg":
        return fn.argnames[p[1]] or "arg%d" % p[1]
    if t == "glob":
        return p[1]
    if t == "fld":
        return "%s.%s" % (apstr(fn, p[1]), p[3])
    if t == "ld":
        return "*%s" % apstr(fn, p[1])
    if t == "idx":
        return "%s[]" % apstr(fn, p[1])
    if t == "loc":
        return "&" + (fn.defs[p[1]].name or "local%d" % p[1])
    if t in ("phi", "call"):
        n = fn.defs[p[1]].name
        if n:
            return n
        if t == "call" and fn.defs[p[1]].callee_name:
            return fn.defs[p[1]].callee_name + "()"
    if t == "null":
        return "NULL"
    if t == "const":
        return str(p[1])
    if t == "str":
        return '"%s"' % p[1]
    return str(p)


def apclass(p):
    """class of a location: last struct.field, or the global"""
    while True:
        t = p[0]
        if t == "fld":
            return "%s.%s" % (p[2], p[3])
        if t == "glob":
            return p[1]
        if t in ("idx",):
            p = p[1]
            continue
        if t == "ld":
            return "*" + apclass(p[1])
        if t == "loc":
            return "local"
        return t
