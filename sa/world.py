"""Whole-program facts: call graph with resolved function pointers, what each function may write, public API."""
import glob, os, re
from collections import defaultdict
import ir
from ir import CASTS, strip, ap, apclass

# external functions: argument positions they write through (everything else only reads)
EXTW = {
    "memset": (0,), "memcpy": (0,), "memmove": (0,), "strcpy": (0,), "strncpy": (0,), "strcat": (0,), "strncat": (0,),
    "snprintf": (0,), "sprintf": (0,), "vsnprintf": (0,), "fgets": (0,), "fread": (0,), "read": (1,), "recv": (1,),
    "strtok_r": (0, 2), "strtok": (0,), "strtol": (1,), "strtoul": (1,), "strtoull": (1,), "strtoll": (1,), "strtod": (1,), "strtof": (1,), "strtold": (1,),
    "gettimeofday": (0,), "clock_gettime": (1,), "time": (0,), "localtime_r": (1,), "gmtime_r": (1,), "stat": (1,),
    "fstat": (1,), "pthread_create": (0,), "pthread_mutexattr_init": (0,), "pthread_mutexattr_settype": (0,), "pthread_mutex_init": (0,),
    "pthread_cond_init": (0,), "pthread_condattr_init": (0,), "pthread_condattr_setclock": (0,), "pthread_attr_init": (0,),
    "pthread_join": (1,), "getsockname": (1, 2), "accept": (1, 2), "inet_pton": (2,), "inet_ntop": (2,), "getaddrinfo": (3,),
    "select": (1, 2, 3, 4), "poll": (0,), "epoll_wait": (1,), "getline": (0, 1), "readlink": (1,), "getcwd": (0,), "realpath": (1,),
    "pthread_attr_setdetachstate": (0,), "pthread_attr_setstacksize": (0,), "va_start": (0,), "uuid_generate": (0,), "uuid_unparse": (1,),
    "asctime_r": (1,), "ctime_r": (1,), "strptime": (2,), "strftime": (0,), "getsockopt": (3, 4), "sem_init": (0,), "regcomp": (0,), "regexec": (3,),
    "sigaction": (2,), "ioctl": (2,), "gethostname": (0,), "getopt_long": (4,), "nanosleep": (1,),
}
EXTW_REST = {"sscanf": 2, "fscanf": 2, "__isoc99_sscanf": 2, "__isoc99_fscanf": 2, "__isoc23_sscanf": 2, "__isoc23_fscanf": 2}


class World:
    def __init__(self, m):
        self.m = m
        self.noreturn = set()
        for f in m.defined(True):
            if not any(i.op == "ret" for i in f.insts()):
                if not any(i.op == "br" and not i.ops for i in f.insts()) or True:
                    # infinite loops (daemon main) are not "noreturn" for callers' purposes unless they exit
                    if any(i.op == "unreachable" for i in f.insts()) and not f.loops():
                        self.noreturn.add(f.name)
        self._fp()
        self._mod()
        self.api = self._api()

    def ext_writes(self, n, nargs):
        n = n.split("\x01")[-1]
        if n.startswith("__isoc23_str"):
            n = n[len("__isoc23_"):]
        if n in EXTW:
            return EXTW[n]
        if n in EXTW_REST:
            return range(EXTW_REST[n], nargs)
        return ()

    # --------------------------------------------------------------- public API
    def _api(self):
        repo = os.environ.get("SA_REPO", "/repo")
        names = {}
        for h in sorted(glob.glob(repo + "/include/*.h")):
            t = open(h, errors="replace").read()
            t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
            t = re.sub(r"//[^\n]*", " ", t)
            for mm in re.finditer(r"\b(rbus\w+)\s*\(", t):
                n = mm.group(1)
                f = self.m.funcs.get(n)
                if f and not f.decl:
                    names[n] = os.path.basename(h)
        return names

    # --------------------------------------------------------------- function pointers
    def _fp(self):
        m = self.m
        flow = defaultdict(set)      # node -> set(nodes) it flows to
        seed = defaultdict(set)      # node -> functions

        def node(fn, v):
            if isinstance(v, int):
                return ("ssa", fn.name, v)
            if v[0] == "f":
                return ("fun", v[1])
            if v[0] == "ce" and v[2]:
                return node(fn, v[2])
            return None

        def cell(fn, addr):
            p = ap(fn, addr)
            return self.cellkey(fn, p)
        for f in m.defined(True):
            for i in f.insts():
                if i.op in CASTS or i.op == "phi" or i.op == "select":
                    srcs = i.ops if i.op != "phi" else [x[1] for x in i.ops]
                    if i.op == "select":
                        srcs = i.ops[1:]
                    for s in srcs:
                        n = node(f, s)
                        if n:
                            flow[n].add(("ssa", f.name, i.id))
                elif i.op == "load":
                    c = cell(f, i.ops[0])
                    if c:
                        flow[c].add(("ssa", f.name, i.id))
                elif i.op == "store":
                    n = node(f, i.ops[0])
                    c = cell(f, i.ops[1])
                    if n and c:
                        flow[n].add(c)
                elif i.op == "call":
                    cn = i.callee_full
                    if cn and cn in m.funcs and not m.funcs[cn].decl:
                        for k, a in enumerate(i.ops):
                            n = node(f, a)
                            if n and k < len(m.funcs[cn].args):
                                flow[n].add(("ssa", cn, k))
                        flow[("ret", cn)].add(("ssa", f.name, i.id))
                    elif cn in ("pthread_create",):
                        n = node(f, i.ops[2])
                        if n:
                            flow[n].add(("thread",))
                    elif cn and cn.startswith(("llvm.memcpy", "llvm.memmove")) or cn in ("memcpy", "memmove"):
                        pass
                elif i.op == "ret" and i.ops:
                    n = node(f, i.ops[0])
                    if n:
                        flow[n].add(("ret", f.name))
        for g in m.globals.values():
            for fnn in g.get("fns", ()):
                seed[("glob", g["name"])].add(fnn)
                flow[("fun", fnn)].add(("glob", g["name"]))
        pts = defaultdict(set)
        work = []
        for n in list(flow):
            if n[0] == "fun":
                pts[n].add(n[1])
                work.append(n)
        # api parameters: user supplied
        self.userfns = set()
        for f in m.defined(True):
            if not f.internal and not m.callers().get(f.name) and not f.addrTaken and f.file.startswith("src/rbus/"):
                for k in range(len(f.args)):
                    pts[("ssa", f.name, k)].add("USER")
                    work.append(("ssa", f.name, k))
        # public API may also be called internally
        while work:
            n = work.pop()
            for d in flow.get(n, ()):
                new = pts[n] - pts[d]
                if new:
                    pts[d] |= new
                    work.append(d)
        self.pts = pts
        # dynamic call edges through indirect calls: bind arguments, iterate
        for _ in range(4):
            changed = False
            for f in m.defined(True):
                for i in f.calls():
                    if isinstance(i.callee, int):
                        for t in list(pts.get(("ssa", f.name, i.callee), ())):
                            if t == "USER" or t not in m.funcs or m.funcs[t].decl:
                                continue
                            for k, a in enumerate(i.ops):
                                n = node(f, a)
                                if n and k < len(m.funcs[t].args):
                                    d = ("ssa", t, k)
                                    if d not in flow[n]:
                                        flow[n].add(d)
                                        changed = True
                                        work.append(n)
                            if ("ssa", f.name, i.id) not in flow[("ret", t)]:
                                flow[("ret", t)].add(("ssa", f.name, i.id))
                                work.append(("ret", t))
                                changed = True
            while work:
                n = work.pop()
                for d in flow.get(n, ()):
                    new = pts[n] - pts[d]
                    if new:
                        pts[d] |= new
                        work.append(d)
            if not changed:
                break
        self.thread_roots = set(x for x in pts.get(("thread",), ()) if x != "USER")

    def cellkey(self, fn, p):
        t = p[0]
        if t == "fld":
            return ("fld", p[2], p[3])
        if t == "glob":
            return ("glob", p[1])
        if t == "idx":
            return self.cellkey(fn, p[1])
        if t == "loc":
            return ("loc", fn.name, p[1])
        return None

    def targets(self, fn, i):
        """callees of an indirect call: list of function names; None = user-supplied / unknown"""
        if i.callee_name:
            return [i.callee_full]
        if not isinstance(i.callee, int):
            return []
        ps = self.pts.get(("ssa", fn.name, i.callee), set())
        if not ps or "USER" in ps:
            return None
        return sorted(x for x in ps)

    def targets_known(self, fn, i):
        if i.callee_name:
            return [i.callee_full]
        if not isinstance(i.callee, int):
            return []
        return sorted(x for x in self.pts.get(("ssa", fn.name, i.callee), set()) if x != "USER")

    def is_user(self, fn, i):
        if not isinstance(i.callee, int):
            return False
        ps = self.pts.get(("ssa", fn.name, i.callee), set())
        return not ps or "USER" in ps

    # --------------------------------------------------------------- mod sets
    def _mod(self):
        m = self.m
        mod = {}
        wp = {}
        for f in m.defined(True):
            s = set()
            w = defaultdict(set)
            for i in f.insts():
                tgt = []
                if i.op == "store" or i.op in ("atomicrmw", "cmpxchg"):
                    tgt = [i.ops[1] if i.op == "store" else i.ops[0]]
                elif i.op == "call":
                    n = i.callee_name
                    if n and n.startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")):
                        tgt = [i.ops[0]]
                    elif n and n in m.funcs and m.funcs[n].decl:
                        tgt = [i.ops[k] for k in self.ext_writes(n, len(i.ops)) if k < len(i.ops)]
                for t in tgt:
                    for p in self.aps(f, t):
                        self.addmod(f, p, s, w, i.op != "store")
            mod[f.name] = s
            wp[f.name] = w
        calls = {}
        for f in m.defined(True):
            cs = []
            for i in f.calls():
                n = i.callee_full
                if n:
                    if n in m.funcs and not m.funcs[n].decl:
                        cs.append((n, i))
                else:
                    ts = self.targets(f, i)
                    if ts is None:
                        mod[f.name].add("*")
                        ts = self.targets_known(f, i)
                    for t in ts:
                        if t in m.funcs and not m.funcs[t].decl:
                            cs.append((t, i))
            calls[f.name] = cs
        self.callees = {k: sorted(set(n for n, _ in v)) for k, v in calls.items()}
        ch = True
        while ch:
            ch = False
            for f in m.defined(True):
                s = mod[f.name]
                w = wp[f.name]
                for n, i in calls[f.name]:
                    new = mod[n] - s
                    if new:
                        s |= new
                        ch = True
                    for k, what in wp[n].items():
                        if k < len(i.ops):
                            for p in self.aps(f, i.ops[k]):
                                r = p
                                pre = False
                                while r[0] in ("fld", "idx"):
                                    r = r[1]
                                    pre = True
                                if r[0] == "arg":
                                    x = what
                                    if pre and "" in what:
                                        c = apclass(p)
                                        x = (what - {""}) | ({self.ck(p)} if p[0] == "fld" else {""})
                                    if not x <= w[r[1]]:
                                        w[r[1]] |= x
                                        ch = True
                                elif p[0] == "fld" and "" in what:
                                    k2 = (p[2], p[3])
                                    if k2 not in s:
                                        s.add(k2)
                                        ch = True
                                elif p[0] == "glob" and what:
                                    if ("g", p[1]) not in s:
                                        s.add(("g", p[1]))
                                        ch = True
        self._modset = mod
        self._wp = wp

    def ck(self, p):
        return (p[2], p[3])

    def aps(self, f, v, depth=0):
        """access paths of a pointer, looking through phis"""
        v = strip(f, v)
        if isinstance(v, int) and v in f.defs and f.defs[v].op == "phi" and depth < 3:
            out = []
            for _, x in f.defs[v].ops:
                if x != v:
                    out += self.aps(f, x, depth + 1)
            return out[:6] or [("phi", v)]
        return [ap(f, v)]

    def addmod(self, f, p, s, w, whole):
        r = p
        while r[0] in ("fld", "idx"):
            if r[0] == "fld":
                break
            r = r[1]
        if r[0] == "fld":
            s.add((r[2], r[3]))
            b = r
            while b[0] in ("fld", "idx"):
                b = b[1]
            if b[0] == "arg":
                w[b[1]].add((r[2], r[3]))
        elif r[0] == "glob":
            s.add(("g", r[1]))
        elif r[0] == "arg":
            w[r[1]].add("")
        elif r[0] in ("ld", "call", "phi", "select"):
            if whole:
                pass

    def modset(self, n):
        return self._modset.get(n, frozenset())

    def writes_param(self, n):
        return self._wp.get(n, {})

    # --------------------------------------------------------------- order
    def bottom_up(self):
        """function names, callees first (recursion broken arbitrarily)"""
        seen = set()
        out = []
        for f in sorted(x.name for x in self.m.defined(True)):
            st = [(f, iter(self.callees.get(f, ())))]
            if f in seen:
                continue
            seen.add(f)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        st.append((y, iter(self.callees.get(y, ()))))
                        break
                else:
                    out.append(x)
                    st.pop()
        return out


def load():
    import build
    p, info = build.build()
    m = ir.Module(p)
    w = World(m)
    w.info = info
    return w
