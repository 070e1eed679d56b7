"""Walks over lists, vectors and chains of nodes: what is stepped from still exists, nothing is skipped, every loop gets on."""
from collections import defaultdict
import ir
from ir import ap, apclass, strip
from engine import *
from rules.c22 import strip0, base

LISTREM = ("rtList_RemoveItem",)
LISTREMX = ("rtList_RemoveItemByCompare", "rtList_RemoveItemWithData", "rtList_RemoveAllItems")
VECREM = ("rtVector_RemoveItem", "rtVector_RemoveItemByCompare")
FREES = {"free", "rt_free_at"}
# results depend on the arguments (and on what a container holds) only
PURE = {"rtVector_At", "rtVector_Size", "rtVector_Find", "rtVector_HasItem", "rtList_GetSize", "rtList_GetFront", "rtList_GetBack", "rtList_HasItem", "rtList_Find",
        "rtListItem_GetData", "rtListItem_GetNext", "rtListItem_GetPrev", "strlen", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "strstr", "strchr", "strrchr", "memcmp",
        "isdigit", "isspace", "isalpha", "isalnum", "toupper", "tolower", "__ctype_b_loc", "atoi", "strcpy", "abs", "rtTime_Elapsed", "cJSON_GetArraySize", "cJSON_GetArrayItem",
        "rbusObject_GetProperties", "rbusProperty_GetNext", "rbusProperty_GetName", "rbusProperty_GetValue", "rbusObject_GetNext", "rbusObject_GetChildren", "__errno_location", "mktime", "difftime"}
SIZES = {"rtVector_Size", "rtList_GetSize", "rtVector_At", "rtVector_Find", "rtVector_HasItem", "rtList_GetFront", "rtList_GetBack", "rtList_HasItem", "rtList_Find"}
QUIET = {"rtLog_Printf", "printf", "fprintf", "snprintf", "puts", "fflush", "fwrite", "putchar", "fputc", "fputs", "rtError_ToString", "rtStrError", "memcpy", "memset", "strncpy", "free",
         "rt_free_at", "pthread_mutex_lock", "pthread_mutex_unlock", "rtListItem_SetData", "strcat", "strncat", "strdup"}
WAITS = {"pthread_cond_wait", "pthread_cond_timedwait", "sleep", "usleep", "nanosleep", "select", "poll", "epoll_wait", "sched_yield", "recv", "accept", "read"}


def lists(w):
    """what each function may take entries out of, itself or through what it calls: (class of the container, the parameter whose object it is in, or None)"""
    m = w.m
    own, calls = {}, {}
    for f in m.defined():
        s, c = set(), []
        for i in f.calls():
            n = i.callee_name
            if n in LISTREM + LISTREMX + VECREM and i.ops:
                p = ap(f, i.ops[0])
                s.add((apclass(p), ofarg(p)))
            for t in w.targets_known(f, i):
                if t in m.funcs and t != f.name:
                    c.append((t, [ap(f, x) for x in i.ops]))
        own[f.name], calls[f.name] = s, c
    ch = True
    while ch:
        ch = False
        for n in own:
            for t, args in calls[n]:
                for c, k in list(own.get(t, ())):
                    x = (c, ofarg(args[k]) if k is not None and k < len(args) else None)
                    if x not in own[n]:
                        own[n].add(x)
                        ch = True
    return own


def ofarg(p):
    """the parameter in whose object (not in one it refers to) this place is"""
    n = 0
    while p and p[0] in ("ld", "fld", "idx"):
        n += p[0] == "ld"
        if p[0] == "ld" and p[1][0] == "loc":
            return None
        p = p[1]
    return p[1] if p and p[0] == "arg" and n <= 1 else None


# ---------------------------------------------------------------- every loop gets on

class Ends:
    """a way round a loop on which nothing changed that any of its branches depends on is taken for ever"""

    def pure(self, i):
        ts = self.w.targets_known(self.f, i)
        return bool(ts) and i.callee_name is not None and all(t in self.pures for t in ts)

    def __init__(self, w, f, head, body, removes, pures=None):
        self.w, self.f, self.head, self.body = w, f, head, set(body)
        self.pures = pures or {}
        self.removes = removes
        self.still = True        # nothing that the loop depends on is changed on the ways looked at

    def inloop(self, v):
        d = self.f.defs.get(v) if isinstance(v, int) else None
        return d is not None and d.block.id in self.body

    def alloca(self, v):
        """the local variable an address belongs to"""
        f = self.f
        seen = 0
        while isinstance(v, int) and seen < 20:
            d = f.defs.get(v)
            if d is None:
                return None
            if d.op == "alloca":
                return d.id
            if d.op in ("getelementptr", "bitcast", "addrspacecast"):
                v = d.ops[0]
                seen += 1
                continue
            return None
        return None

    def slice(self, v, out, seen):
        """what v depends on: ("phi", id), ("var", alloca), ("mem", class), ("call", inst)"""
        if not isinstance(v, int) or v in seen:
            return
        seen.add(v)
        d = self.f.defs.get(v)
        if d is None or d.block.id not in self.body:
            return
        if d.op == "phi":
            if d.block.id == self.head:
                out.add(("phi", d.id))
            else:
                for _, x in d.ops:
                    self.slice(x, out, seen)
                # which value comes out also depends on the way taken: those branches are looked at anyway
            return
        if d.op == "load":
            a = self.alloca(d.ops[0])
            if a is not None:
                self.var(a, out, seen)
            else:
                out.add(("mem", apclass(ap(self.f, d.ops[0])), d.id))
                self.slice(d.ops[0], out, seen)
            return
        if d.op == "call":
            n = d.callee_name
            if n in PURE:
                for x in d.ops:
                    self.slice(x, out, seen)
                if n in SIZES:
                    out.add(("list", apclass(ap(self.f, d.ops[0]))))
            elif self.pure(d):
                # the same again if it is given the same and nothing that it reads was changed
                for x in d.ops:
                    a = self.alloca(x)
                    if a is not None:
                        self.var(a, out, seen)
                    self.slice(x, out, seen)
                for t in self.w.targets_known(self.f, d):
                    for c in self.pures[t]:
                        out.add(("mem", c, None))
            else:
                out.add(("call", d.id))
            return
        if d.op in ("atomicrmw", "cmpxchg"):
            out.add(("call", d.id))
            return
        for x in d.ops:
            if isinstance(x, int):
                self.slice(x, out, seen)
            elif isinstance(x, (list, tuple)) and len(x) == 2 and isinstance(x[1], int) and d.op == "phi":
                self.slice(x[1], out, seen)

    def var(self, a, out, seen):
        k = ("v", a)
        if k in seen:
            return
        seen.add(k)
        out.add(("var", a))

    def writes(self, i):
        """allocas this instruction writes, with how: "same" if with something that only depends on what is read again"""
        if i.op == "store":
            a = self.alloca(i.ops[1])
            return [(a, i.ops[0])] if a is not None else []
        if i.op == "call":
            r = []
            for k, x in enumerate(i.ops):
                a = self.alloca(x)
                if a is not None:
                    r.append((a, None))
            return r
        return []

    def changed(self, i, deps):
        """the instruction changes one of the dependencies"""
        if i.op == "store":
            a = self.alloca(i.ops[1])
            if a is not None:
                if ("var", a) not in deps:
                    return False
                # a value that is the same each time round does not get the loop on
                x = set()
                self.slice(i.ops[0], x, set())
                if a in self.steps(i.ops[0]):
                    return True
                if isinstance(i.ops[0], int) and self.inloop(i.ops[0]):
                    y = {z for z in x if z != ("var", a)}
                    if not (x - y) and not y:
                        return False
                    return ("dep", frozenset(x)) if not (x - y) else True
                return False
            c = apclass(ap(self.f, i.ops[1]))
            return any(d[0] == "mem" and d[1] == c for d in deps)
        if i.op == "call":
            n = i.callee_name or ""
            if n in WAITS:
                return True
            if n.startswith("rtLog") or ("call", i.id) not in deps and n not in PURE and self.pure(i):
                return False
            if n.startswith("llvm."):
                if n.startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")):
                    a = self.alloca(i.ops[0])
                    return a is not None and ("var", a) in deps and not n.startswith("llvm.memset")
                return False
            if ("call", i.id) in deps:
                return True
            if n in PURE:
                for k, x in enumerate(i.ops):
                    a = self.alloca(x)
                    if a is not None and ("var", a) in deps:
                        x2 = set()
                        for kk, y in enumerate(i.ops):
                            if kk != k:
                                self.slice(y, x2, set())
                        if n in SIZES:
                            x2.add(("list", apclass(ap(self.f, i.ops[0]))))
                        if ("var", a) in x2:
                            return True
                        if x2:
                            return ("dep", frozenset(x2))
                return False
            if n in LISTREM + LISTREMX + VECREM or n in ("rtVector_PushBack", "rtList_PushBack", "rtList_PushFront"):
                return any(d[0] == "list" and d[1] == apclass(ap(self.f, i.ops[0])) for d in deps)
            for x in i.ops:
                a = self.alloca(x)
                if a is not None and ("var", a) in deps and n not in QUIET:
                    return True
            if n in QUIET:
                return False
            # anything else may change memory and lists
            ts = self.w.targets_known(self.f, i)
            for d in deps:
                if d[0] == "mem":
                    if not ts or any(self.mods(t, d[1]) for t in ts):
                        return True
                if d[0] == "list":
                    if not ts and i.callee_name is None or any(any(d[1] == x[0] for x in self.removes.get(t, ())) or "?" in d[1] for t in ts):
                        return True
            return False
        if i.op in ("atomicrmw", "cmpxchg"):
            return True
        return False

    def steps(self, v):
        """the variables whose successor v is"""
        v = strip(self.f, v)
        d = self.f.defs.get(v) if isinstance(v, int) else None
        b = self.alloca(d.ops[0]) if d is not None and d.op == "load" else None
        r = set()
        if b is not None:
            for c in self.insts():
                if c.op == "call" and c.callee_name in ("rtListItem_GetNext", "rtListItem_GetPrev") and self.alloca(c.ops[1]) == b:
                    x = set()
                    self.slice(c.ops[0], x, set())
                    r |= {y[1] for y in x if y[0] == "var"}
        return r

    def mods(self, t, c):
        """the function may change memory of this class"""
        if "?" in c or c.startswith("*"):
            return True
        for x in self.w.modset(t):
            s = x if isinstance(x, str) else "%s.%s" % x if x[0] != "g" else x[1]
            if s == c or s == "*" or c.endswith(s):
                return True
        return False

    def stuck(self):
        """a way from the head back to it without any change, or None"""
        f = self.f
        head = self.head
        deps = set()
        seen = set()
        # loops that wait are driven by others
        if any(i.op == "call" and (i.callee_name in WAITS) for i in self.insts()):
            return None
        for b in self.body:
            t = f.blocks[b].insts[-1]
            if t.op in ("br", "switch") and len(set(f.blocks[b].succs)) > 1:
                self.slice(t.ops[0], deps, seen)
        # close over dependencies of what is computed from other variables
        conds = {}
        for i in self.insts():
            r = self.changed(i, deps)
            while isinstance(r, tuple):
                new = set(r[1]) - deps
                if not new:
                    break
                deps |= new
                r = self.changed(i, deps)
        if not deps:
            exits = any(s not in self.body for b in self.body for s in f.blocks[b].succs)
            return None if not exits else None
        hard = set()
        for i in self.insts():
            r = self.changed(i, deps)
            if r is True:
                hard.add(id(i))
        phis = [d[1] for d in deps if d[0] == "phi"]
        # search for a way round: state (block, values of the phis of merges)
        st0 = (head, (), ())
        todo, came = [st0], {st0: None}
        while todo:
            b, env, facts = todo.pop()
            if any(id(i) in hard for i in f.blocks[b].insts):
                continue
            ids = {i.id for i in f.blocks[b].insts if i.op != "phi"}
            fb = {k: v for k, v in facts if not self.about(k, ids)}
            for s in f.blocks[b].succs:
                if s not in self.body:
                    continue
                e = dict(env)
                fx = self.branch(b, s, e, fb)
                if fx is None:
                    continue
                if s == head:
                    ok = True
                    for p in phis:
                        d = f.defs[p]
                        v = [x for bb, x in d.ops if bb == b]
                        v = self.value(v[0], e) if v else None
                        if v != p and not self.sameval(v, p):
                            ok = False
                            break
                    if ok:
                        path, x = [b], (b, env, facts)
                        while came[x] is not None:
                            x = came[x]
                            path.append(x[0])
                        return path[::-1]
                    continue
                for i in f.blocks[s].insts:
                    if i.op != "phi":
                        break
                    v = [x for bb, x in i.ops if bb == b]
                    if v:
                        e[i.id] = self.value(v[0], dict(env))
                ne = (s, tuple(sorted(e.items(), key=repr)), tuple(sorted(fx.items(), key=repr)))
                if ne not in came and len(came) < 20000:
                    came[ne] = (b, env, facts)
                    todo.append(ne)
        return None

    def branch(self, b, s, env, facts):
        """what the way from b to s tells of a value (equal to a constant or another value, or not); None if it contradicts what is known"""
        t = self.f.blocks[b].insts[-1]
        if t.op != "br" or len(set(self.f.blocks[b].succs)) < 2:
            return dict(facts)
        v = self.value(t.ops[0], env)
        d = self.f.defs.get(v) if isinstance(v, int) else None
        if d is not None and d.op == "icmp":
            x, y, pred = self.canon(d.ops[0], env), self.canon(d.ops[1], env), d.pred
        else:
            x, y, pred = self.canon(t.ops[0], env), ("c", 0), "ne"
        if pred in ("sgt", "sge", "ugt", "uge"):
            x, y, pred = y, x, pred[0] + "l" + pred[2]
        holds = s == t.succ[0]
        if pred in ("sle", "ule"):
            x, y, pred, holds = y, x, pred[0] + "lt", not holds
        if pred not in ("eq", "ne"):
            r = dict(facts)
            if x == y and holds or r.get((pred, x, y), holds) != holds:
                return None
            r[pred, x, y] = holds
            return r
        if x[0] == "c":
            x, y = y, x
        same = (pred == "eq") == holds
        if x == y or x[0] == "c" and y[0] == "c":
            return dict(facts) if same == (x == y) else None
        r = dict(facts)
        if y[0] == "c":
            eq, ne = r.get(x, (None, ()))
            if same and (y[1] in ne or eq is not None and eq != y[1]) or not same and eq == y[1]:
                return None
            r[x] = (y[1], ()) if same else (eq, tuple(sorted(set(ne) | {y[1]})) if eq is None else ())
            return r
        k = tuple(sorted((x, y), key=repr))
        if r.get(k, same) != same:
            return None
        r[k] = same
        return r

    def canon(self, v, env, n=0):
        """a name for the value: two loads from one place are the same, as nothing the loop depends on is changed on the ways looked at"""
        v = self.value(v, env)
        if not isinstance(v, int):
            if isinstance(v, tuple) and v[:1] == ("n",):
                return ("c", 0)
            return v[:2] if isinstance(v, tuple) and v[:1] == ("c",) else ("x", repr(v))
        d = self.f.defs.get(v)
        if d is None or n > 4:
            return ("v", v)
        if d.op == "load" and d.block.id in self.body and self.still:
            return ("ld", self.canon(d.ops[0], env, n + 1))
        if d.op in ("add", "sub", "and", "or", "xor"):
            return (d.op, self.canon(d.ops[0], env, n + 1), self.canon(d.ops[1], env, n + 1))
        return ("v", v)

    @staticmethod
    def about(k, ids):
        return k[0] == "v" and k[1] in ids or any(isinstance(x, tuple) and Ends.about(x, ids) for x in k)

    def sameval(self, v, p):
        """a value that is the same in every round: a constant or from outside, already there in the first"""
        return False

    def value(self, v, env):
        n = 0
        while isinstance(v, int) and n < 10:
            if v in env:
                return env[v]
            d = self.f.defs.get(v)
            if d is not None and d.op in ir.CASTS:
                v = d.ops[0]
                n += 1
                continue
            return v
        return tuple(v) if isinstance(v, list) else v

    def insts(self):
        for b in self.body:
            for i in self.f.blocks[b].insts:
                yield i


def reading(w):
    """functions that change nothing but their own variables, and the classes of memory that they read"""
    m = w.m
    local, calls, out = {}, {}, {}
    for f in m.defined():
        reads, writes, cs, ok = set(), set(), [], True
        for i in f.insts():
            if i.op in ("load", "store"):
                a = ap(f, i.ops[0] if i.op == "load" else i.ops[1])
                r = root_of(a)
                if i.op == "load" and r[0] != "loc":
                    reads.add(apclass(a))
                elif i.op == "store" and r[0] == "arg":
                    writes.add(r[1])
                elif i.op == "store" and r[0] != "loc":
                    ok = False
            elif i.op in ("atomicrmw", "cmpxchg"):
                ok = False
            elif i.op == "call":
                n = i.callee_name or ""
                if n.startswith(("llvm.dbg", "llvm.lifetime", "rtLog")) or n in PURE and n not in SIZES and n != "strcpy" or n == "__assert_fail":
                    continue
                if n.startswith(("llvm.memcpy", "llvm.memset")) and root_of(ap(f, i.ops[0]))[0] == "loc":
                    continue
                ts = w.targets_known(f, i)
                if not n or not ts:
                    ok = False
                else:
                    cs.append((ts, [root_of(ap(f, x)) for x in i.ops]))
        if ok:
            local[f.name], calls[f.name] = [reads, writes], cs
    ch = True
    while ch:
        ch = False
        for n in list(local):
            reads, writes = local[n]
            for ts, args in calls[n]:
                for t in ts:
                    if t not in local:
                        local.pop(n, None)
                        ch = True
                        break
                    for k in local[t][1]:
                        r = args[k] if k < len(args) else ("?",)
                        if r[0] == "arg" and r[1] not in writes:
                            writes.add(r[1])
                            ch = True
                        elif r[0] not in ("arg", "loc"):
                            local.pop(n, None)
                            ch = True
                            break
                    if t in local and not local[t][0] <= reads:
                        reads |= local[t][0]
                        ch = True
                if n not in local:
                    break
    return {n: r for n, (r, wr) in local.items() if not wr}


def root_of(a):
    """the variable, parameter, ... whose own memory the place is in: through no pointer"""
    while a and a[0] in ("fld", "idx"):
        a = a[1]
    return a or ("?",)


def ends(w, res, R, rem):
    n = 0
    pures = reading(w)
    res.count("functions that change nothing", len(pures), 20)
    for f in w.m.defined():
        if not f.file or "/src/" not in f.file and not f.file.startswith("src/"):
            pass
        for h, body in f.loops().items():
            n += 1
            p = Ends(w, f, h, body, rem, pures).stuck()
            if p:
                i = f.blocks[p[-1]].insts[-1]
                l = next((x for b in p for x in f.blocks[b].insts if x.loc), i)
                res.add("C19.ends", f.dname, "loop", l.where(), "a way round the loop changes nothing that the loop depends on, so it goes on for ever", " -> ".join(
                    str(f.blocks[b].insts[-1].line) for b in p))
    res.count("loops", n, 150)


# ---------------------------------------------------------------- what is stepped from still exists

LOCKS = {"pthread_mutex_lock"}
UNLOCKS = {"pthread_mutex_unlock"}
STEP = {"rtListItem_GetNext", "rtListItem_GetPrev"}
GETS = {"rtList_GetFront", "rtList_GetBack"}
LOOKS = {"rtListItem_GetData", "rtListItem_SetData", "rtList_InsertBefore", "rtList_InsertAfter", "rtList_RemoveItem"}


def item(call, lst):
    return ("op", "item", call, lst)


def data(call, it):
    return ("op", "data", call, it)


class Walk(Client):
    """typestate: ("gone", entry) removed from its list, ("new", entry) not looked at, ("dead", memory) freed, ("left", entry) its list was unlocked, ("held", lock)"""
    MAXSTEPS = 100000
    K = 6
    JOINBEST = False

    def __init__(self, w, f, R):
        self.w, self.f, self.R = w, f, R
        self.cells = set()
        for i in f.calls(*(STEP | GETS)):
            a = strip(f, i.ops[1])
            if isinstance(a, int) and a in f.defs and f.defs[a].op == "alloca":
                self.cells.add(a)
        self.classes()
        self.freed = set()
        self.lcls = {}
        self.found = None
        self.part = {}           # what was read out of an entry's data
        self.looks = any(True for i in f.calls("rtListItem_GetData"))

    def classes(self):
        """which lists the entries in each variable come from"""
        f = self.f
        self.cellcls = {a: set() for a in self.cells}

        def cell(v):
            v = strip(f, v)
            d = f.defs.get(v) if isinstance(v, int) else None
            if d is None:
                return None
            if d.op == "alloca":
                return d.id
            return cell(d.ops[0]) if d.op == "load" else None
        for i in f.calls(*GETS):
            a = cell(i.ops[1])
            if a in self.cellcls:
                self.cellcls[a].add(apclass(ap(f, i.ops[0])))
        for _ in range(4):
            for i in f.insts():
                if i.op == "call" and i.callee_name in STEP or i.op == "store":
                    a, b = cell(i.ops[1]), cell(i.ops[0])
                    if a in self.cellcls and b in self.cellcls:
                        self.cellcls[a] |= self.cellcls[b]

    def init_ts(self, fn):
        return frozenset()

    def ts_live(self, ts):
        return [x[1] for x in ts if x[0] != "held"]

    def ts_prune(self, st):
        keep = set()
        for v in st.regs.values():
            leaves(v, keep)
            keep.add(v)
        for v in st.mem.values():
            leaves(v, keep)
            keep.add(v)
        out = []
        for x in st.ts:
            if x[0] in ("held", "lent"):
                out.append(x)
            elif st.isnull(x[1]) is True:
                continue
            elif x[1] in keep or x[1][0] in ("p", "g"):
                out.append(x)
            elif x[0] == "pend":
                # nobody has it any more, and nobody has looked at it
                self.R.maybe(self.f, self.at, x[1], st)
        return frozenset(out)

    def bad(self, i, obj, text, st):
        self.R.bad(self.f, obj, i, text, st)

    def known(self, st, kind, v):
        return (kind, v) in st.ts

    def drop(self, st, v, *kinds):
        st.ts = frozenset(x for x in st.ts if x[1] != v or x[0] not in kinds)

    def add(self, st, *xs):
        st.ts = st.ts | set(xs)

    # -- entries
    def use(self, st, i, it, how):
        if self.known(st, "gone", it):
            self.bad(i, "entry", "an entry is %s after it was removed from its list" % how, st)
            self.drop(st, it, "gone")
        if self.known(st, "left", it):
            if it[0] == "op" and it[1] == "item" and self.R.others(self.f, self.lcls.get(it[3])):
                self.bad(i, "unlocked entry", "an entry is %s although its list was unlocked since it was looked up, so it may be gone" % how, st)
            self.drop(st, it, "left")

    def dead(self, st, v):
        """the freed memory this address lies in"""
        for x in st.ts:
            if x[0] == "dead" and not (x[1][0] == "v" and x[1][2] == 2) and (x[1] == v or root(v) == x[1] or strip0(v) == x[1] or v[0] == "gep" and v[1] == x[1]):
                return x[1]
        return None

    def on_load(self, eng, st, i, addr):
        d = self.dead(st, addr) if addr[0] != "al" else None
        if d is not None:
            self.bad(i, "freed", "memory is read after it was freed", st)
            self.drop(st, d, "dead")
        if addr[0] == "gep" and lastfield(addr) in (("_rtListItem", "next"), ("_rtListItem", "prev")) and self.known(st, "gone", addr[1]):
            self.bad(i, "entry", "an entry is stepped from after it was removed from its list", st)
            self.drop(st, addr[1], "gone")
        r = strip0(addr)
        r = self.part.get(r, root(addr))
        if r[0] == "op" and r[1] == "data":
            v = eng.load(st, i, addr)
            st.regs[i.id] = v
            if v[0] == "v":
                self.part[v] = r
            return [st]
        return None

    def on_store(self, eng, st, i, addr, val):
        d = self.dead(st, addr) if addr[0] != "al" else None
        if d is not None:
            self.bad(i, "freed", "memory is written after it was freed", st)
            self.drop(st, d, "dead")
        return None

    def live(self, st, want=None):
        """the entries the function still refers to"""
        r = set()
        for k, v in st.mem.items():
            if k[0] == "al" and v[0] not in ("c", "undef") and (k[1] in self.cells or v[0] == "op" and v[1] == "item"):
                r.add(v)
        for v in st.regs.values():
            if v[0] == "op" and v[1] == "item":
                r.add(v)
        return r

    def invalidate(self, st, i, lst):
        """entries of this list may be gone: those still referred to"""
        for v in self.live(st):
            if v[0] == "op" and v[1] == "item" and v[3] == lst:
                st.ts = st.ts | {("gone", v)}

    def on_call(self, eng, st, i, args):
        n = i.callee_name
        self.found = None
        args = [strip0(a) if a[0] not in ("al",) else a for a in args]
        if n in STEP:
            it = args[0]
            self.use(st, i, it, "stepped from")
            if self.known(st, "new", it) and self.looks and st.isnull(it) is not True:
                self.at = i
                self.add(st, ("pend", it))
            self.drop(st, it, "new")
            return None
        if n in LOOKS:
            it = args[1] if n == "rtList_RemoveItem" or n.startswith("rtList_Insert") and len(args) > 2 else args[0]
            if n.startswith("rtList_Insert"):
                it = args[2]
            self.use(st, i, it, "removed again" if n == "rtList_RemoveItem" else "looked at")
            self.drop(st, it, "new", "pend")
            if n == "rtList_RemoveItem":
                if st.const(args[2]) != 0 and args[2][0] != "n":
                    for v in self.datas(st, it):
                        self.add(st, ("dead", v))
                self.add(st, ("gone", it))
                st.ts = frozenset(x for x in st.ts if not (x[0] == "lent" and x[1] == it))
                self.R.removals += 1
            return None
        if n == "rtList_RemoveItemWithData":
            st.ts = frozenset(x for x in st.ts if not (x[0] == "lent" and x[2] == args[1]))
        if n == "rtVector_RemoveItem":
            self.R.removals += 1
            st.ts = frozenset(x for x in st.ts if not (x[0] == "lent" and x[2] == args[1]))
            if st.const(args[2]) != 0:
                self.freed |= {args[1]} if args[1][0] == "p" else set()
                self.add(st, ("dead", args[1]))
            return None
        if n in LISTREMX:
            if n == "rtList_RemoveItemWithData" and st.const(args[2]) != 0:
                self.add(st, ("dead", args[1]))
            self.invalidate(st, i, args[0])
            return None
        if n in LOCKS:
            self.add(st, ("held", args[0]))
            return None
        if n in UNLOCKS:
            was = any(x[0] == "held" for x in st.ts)
            self.drop(st, args[0], "held")
            if was and not any(x[0] == "held" for x in st.ts):
                for v in self.live(st):
                    l = v[3] if v[0] == "op" and v[1] == "item" else None
                    if l is None or root(l)[0] != "al":
                        if st.isnull(v) is not True and not any(x == ("gone", v) for x in st.ts):
                            self.add(st, ("left", v))
            return None
        if n in FREES or n and n in self.R.frees:
            ks = (0,) if n in FREES else self.R.frees[n]
            for k in ks:
                if k >= len(args):
                    continue
                v = args[k]
                if v[0] in ("c", "n", "undef", "s", "al") or st.isnull(v) is True:
                    continue
                if self.dead(st, v) == v:
                    self.bad(i, "freed", "memory is freed that was freed before", st)
                self.freed |= {v} if v[0] == "p" else set()
                if v[0] in ("p", "v", "j") or v[0] == "op" and v[1] in ("data", "item") or v[0] == "f":
                    self.add(st, ("dead", v))
            return None
        # lists that the callee takes entries out of
        if n and n in self.w.m.funcs and not self.w.m.funcs[n].decl:
            for v in args:
                d = self.dead(st, v) if v[0] in ("v", "op", "p", "j", "gep") else None
                if d is not None and not self.R.harmless(n):
                    self.bad(i, "freed", "%s is given memory that was freed" % n, st)
                    self.drop(st, d, "dead")
        rem = set()
        ts = self.w.targets_known(self.f, i)
        for t in ts:
            rem |= self.R.removes.get(t, set())
        # what a function finds that only reads, given something out of an entry, may be that entry's
        self.found = None
        if ts and all(t in self.R.pures for t in ts):
            ds = {self.part.get(a, a) for a in args}
            ds = {d for d in ds if d[:2] == ("op", "data")}
            self.found = ds.pop() if len(ds) == 1 else None
        if rem and self.cells:
            for k, v in list(st.mem.items()):
                if k[0] == "al" and k[1] in self.cells and v[0] not in ("c", "undef"):
                    # the callee gets what is in the entry, and takes entries out of such lists, other than those inside of it
                    for a in range(len(args)):
                        d = self.part.get(args[a], args[a])
                        if d[:2] == ("op", "data") and d[3] == v and any(c in self.cellcls[k[1]] and (x != a or d != args[a]) for c, x in rem):
                            self.add(st, ("gone", v))
        return None

    def on_ret(self, eng, st, i, val):
        for x in st.ts:
            if x[0] == "lent":
                self.bad(i, "local", "the function returns and leaves its own variable in a list", st)
        return None

    def datas(self, st, it):
        r = set()
        for v in list(st.regs.values()) + list(st.mem.values()):
            if v[0] == "op" and v[1] == "data" and v[3] == it:
                r.add(v)
        return r

    def after_call(self, eng, st, i, args):
        n = i.callee_name
        if n in GETS | STEP:
            if n in GETS:
                l = strip0(args[0])
                self.lcls[l] = apclass(ap(self.f, i.ops[0]))
            else:
                it = strip0(args[0])
                l = it[3] if it[0] == "op" and it[1] == "item" else ("undef", "list")
            v = item(st.regs[i.id], l)
            eng.store(st, args[1], v)
            if n in STEP:
                st.ts = st.ts | {("new", v)}
        elif n in ("rtList_PushBack", "rtList_PushFront", "rtVector_PushBack"):
            v = item(st.regs[i.id], strip0(args[0]))
            if len(args) > 2 and st.isnull(args[2]) is not True:
                eng.store(st, args[2], v)
            if root(args[1])[0] == "al" and root(args[0])[0] != "al":
                st.ts = st.ts | {("lent", v, args[1], i.where())}
                self.R.lent += 1
        elif self.found is not None and n not in LOOKS:
            v = st.regs.get(i.id)
            if v is not None and v[0] == "v":
                self.part[v] = self.found
            self.found = None
        elif n == "rtListItem_GetData":
            eng.store(st, args[1], data(st.regs[i.id], strip0(args[0])))
        return None


class Rules:
    def __init__(self, w, res, removes):
        self.w, self.res, self.removes = w, res, removes
        self.pures = reading(w)
        self.frees = {}
        self.removals = self.lent = 0
        self.seen = set()

    def bad(self, f, obj, i, text, st):
        self.res.add("C19.step", f.dname, obj, i.where(), text, trail_text(st) if st else "")

    def maybe(self, f, i, it, st):
        self.res.add("C19.skip", f.dname, "entry", i.where(), "an entry is stepped over without being looked at", trail_text(st))

    def others(self, f, c):
        """some other part of the program takes entries out of such lists"""
        below, todo = {f.name}, [f.name]
        while todo:
            g = self.w.m.funcs.get(todo.pop())
            for i in g.calls() if g and not g.decl else ():
                for t in self.w.targets_known(g, i):
                    if t not in below:
                        below.add(t)
                        todo.append(t)
        return any(g not in below and any(
            apclass(ap(self.w.m.funcs[g], i.ops[0])) == c for i in self.w.m.funcs[g].calls(*(LISTREM + LISTREMX))) for g in self.removes)

    def harmless(self, n):
        return n.startswith("rtLog")


def steps(w, res, R):
    m = w.m
    n = over = 0
    for name in w.bottom_up():
        f = m.funcs[name]
        if f.decl or f.inlinedAway:
            continue
        cs = {i.callee_name for i in f.calls()}
        if not cs & (STEP | GETS | FREES | {"rtVector_RemoveItem", "rtList_RemoveItem"} | set(R.frees) | set(LISTREMX)):
            continue
        n += 1
        c = Walk(w, f, R)
        e = Engine(w, f, c)
        e.run()
        if e.over:
            c.K = 1
            e = Engine(w, f, c)
            e.run()
            over += e.over
        ks = {v[1] for v in c.freed if v[0] == "p"}
        if ks:
            R.frees[f.name] = tuple(sorted(ks))
    res.count("functions that walk or free", n, 20)
    res.count("functions with too many paths to look at all", over, 0)
    res.count("removals", R.removals, 20)


# ---------------------------------------------------------------- walks by index

class Index:
    """after an entry is taken out of a vector in a loop over it by a rising index, the index stays, and the bound is asked again"""

    def __init__(self, w, f, removes):
        self.w, self.f, self.removes = w, f, removes

    def linear(self, v, env, n=0):
        """(value, offset)"""
        k = 0
        while isinstance(v, int) and n < 20:
            n += 1
            if v in env and env[v] != v:
                v = env[v]
                continue
            d = self.f.defs.get(v)
            if d is not None and d.op in ir.CASTS:
                v = d.ops[0]
            elif d is not None and d.op in ("add", "sub") and isinstance(d.ops[1], list) and d.ops[1][0] == "c":
                k += self.signed(d.ops[1][1]) * (1 if d.op == "add" else -1)
                v = d.ops[0]
            else:
                break
        return v, k

    @staticmethod
    def signed(n):
        return n - (1 << 32) if n >= 1 << 31 and n < 1 << 32 else n - (1 << 64) if n >= 1 << 63 else n

    def removals(self, body):
        """(call, class of the vector)"""
        f = self.f
        for b in body:
            for i in f.blocks[b].insts:
                if i.op != "call":
                    continue
                if i.callee_name in VECREM:
                    yield i, ap(f, i.ops[0]), apclass(ap(f, i.ops[0]))
                else:
                    for t in self.w.targets_known(f, i):
                        for c, k in self.removes.get(t, ()):
                            yield i, None, c

    def ways(self, head, body, i):
        """values the header's phis may have after going on from i to the header"""
        f = self.f
        E = Ends(self.w, f, head, body, {})
        E.still = False
        facts = {}
        for d in f.doms()[i.block.id]:
            for s in set(f.blocks[d].succs):
                if d in body and s in f.doms()[i.block.id] and len(f.blocks[s].preds) == 1:
                    x = E.branch(d, s, {}, facts)
                    facts = facts if x is None else x
        todo, seen = [(i.block.id, (), tuple(sorted(facts.items(), key=repr)))], set()
        while todo:
            b, env, facts = todo.pop()
            if (b, env, facts) in seen or len(seen) > 5000:
                continue
            seen.add((b, env, facts))
            ids = {x.id for x in f.blocks[b].insts if x.op != "phi"} if b != i.block.id or len(seen) > 1 else ()
            fb = {k: v for k, v in facts if not E.about(k, ids)}
            for s in f.blocks[b].succs:
                if s not in body:
                    continue
                e = dict(env)
                fx = E.branch(b, s, e, fb)
                if fx is None:
                    continue
                new = {}
                for p in f.blocks[s].insts:
                    if p.op != "phi":
                        break
                    for bb, x in p.ops:
                        if bb == b:
                            new[p.id] = E.value(x, e)
                if s == head:
                    yield {p: self.linear(v, e) for p, v in new.items()}
                    continue
                e.update(new)
                todo.append((s, tuple(sorted(e.items(), key=repr)), tuple(sorted(fx.items(), key=repr))))

    def check(self, res):
        f = self.f
        n = 0
        for h, body in f.loops().items():
            body = set(body)
            phis = [p for p in f.blocks[h].insts if p.op == "phi"]
            if not phis:
                continue
            ats = {}
            for b in body:
                for i in f.blocks[b].insts:
                    if i.op == "call" and i.callee_name == "rtVector_At":
                        x, d = self.linear(i.ops[1], {})
                        if any(x == p.id for p in phis) and d == 0:
                            ats.setdefault(x, set()).add(apclass(ap(f, i.ops[0])))
            if not ats:
                continue
            rem = list(self.removals(body))
            for p in phis:
                if p.id not in ats:
                    continue
                steps = {d for bb, x in p.ops if bb in body for y, d in [self.linear(x, {})] if y == p.id}
                if any(d < 0 for d in steps):
                    continue
                for i, _, c in rem:
                    if c not in ats[p.id]:
                        continue
                    n += 1
                    back = False
                    for new in self.ways(h, body, i):
                        back = True
                        if new.get(p.id, (None, 0))[0] == p.id and new[p.id][1] > 0:
                            res.add("C19.index", f.dname, c, i.where(), "an entry is taken out of the vector walked over and the index goes on all the same: the one after it is skipped")
                            break
                    if back and self.fixed(h, body, p, c):
                        res.add("C19.index", f.dname, c + " bound", i.where(), "an entry is taken out of the vector walked over, but the walk's bound was asked for before")
        return n

    def fixed(self, h, body, p, c):
        """the loop compares the index with what the size was before it"""
        f = self.f
        for b in body:
            t = f.blocks[b].insts[-1]
            if t.op != "br" or len(f.blocks[b].succs) < 2 or all(s in body for s in f.blocks[b].succs):
                continue
            d = f.defs.get(strip(f, t.ops[0])) if isinstance(t.ops[0], int) else None
            if d is None or d.op != "icmp":
                continue
            for x, y in (d.ops, d.ops[::-1]):
                if self.linear(x, {})[0] == p.id:
                    q = self.linear(y, {})[0]
                    z = f.defs.get(q) if isinstance(q, int) else None
                    if z is not None and z.op == "call" and z.callee_name == "rtVector_Size" and z.block.id not in body and apclass(ap(f, z.ops[0])) == c:
                        return True
        return False


def stale(w, res):
    """what a removal leaves in an item is freed again with the list, if the list is destroyed with a destroyer"""
    m = w.m
    owning, reusing = set(), set()
    for f in m.defined():
        for i in f.calls("rtList_Destroy"):
            if i.ops[1] != ["n"] and not (isinstance(i.ops[1], list) and i.ops[1][:2] == ["c", 0]):
                owning.add(apclass(ap(f, i.ops[0])))
        for i in f.calls("rtList_PushBack", "rtList_PushFront"):
            if isinstance(i.ops[1], list) or i.ops[1] in f.defs and f.defs[i.ops[1]].op == "load" and ap(f, f.defs[i.ops[1]].ops[0]) == ("glob", "rtListReuseData"):
                reusing.add(apclass(ap(f, i.ops[0])))
    n = 0
    for f in m.defined():
        if f.name.startswith("rtList"):
            continue
        for i in f.calls("rtList_RemoveItem"):
            c = apclass(ap(f, i.ops[0]))
            if c not in owning or i.ops[2] != ["n"] or c in reusing:
                continue
            n += 1
            it = ap(f, i.ops[1])
            if not any(ap(f, j.ops[0]) == it and f.dominates(j, i) for j in f.calls("rtListItem_SetData")):
                res.add("C19.stale", f.dname, c, i.where(), "the entry is taken out and what it refers to is kept in the item, which the list frees again when it is destroyed")
    res.count("removals that leave the data to the caller", n, 0)


def index(w, res, removes):
    n = 0
    for f in w.m.defined():
        if any(True for _ in f.calls("rtVector_At")):
            n += Index(w, f, removes).check(res)
    res.count("removals in walks by index", n, 2)


# ---------------------------------------------------------------- the list itself

LINKS = ("next", "prev", "front", "back", "size", "free", "data")
# operation -> (role of the item, what the call links it to)
LISTOPS = {"rtList_RemoveItem": "remove", "rtList_PushFront": "front", "rtList_PushBack": "back", "rtList_InsertBefore": "before", "rtList_InsertAfter": "after"}


class Links(Client):
    """what each operation on a list leaves in the links, against what was in them"""
    K = 40
    MAXSTEPS = 60000

    def __init__(self, w, f, kind, res):
        self.w, self.f, self.kind, self.res = w, f, kind, res
        self.checked = 0

    def init_ts(self, fn):
        return ()       # stores so far: ((address, value), ...)

    def ts_live(self, ts):
        return [x for a, v in ts for x in (a, v)]

    @staticmethod
    def entry(addr):
        return ("op", "entry", addr, ("c", 0))

    def on_load(self, eng, st, i, addr):
        f = lastfield(addr)
        if f is None or f[1] not in LINKS or root(addr)[0] == "al":
            return None
        for a, v in reversed(st.ts):
            if a == addr:
                st.regs[i.id] = v
                return [st]
        st.regs[i.id] = self.entry(addr)
        return [st]

    def on_store(self, eng, st, i, addr, val):
        f = lastfield(addr)
        if f is not None and f[1] in LINKS and root(addr)[0] != "al":
            st.ts = tuple(x for x in st.ts if x[0] != addr) + ((addr, val),)
            return [st]
        return None

    def on_call(self, eng, st, i, args):
        if i.callee_name is None and args and lastfield(args[0][2] if args[0][:2] == ("op", "entry") else args[0]) == ("_rtListItem", "data"):
            st.ts = st.ts + ((("g", "destroyed"), args[0]),)
        return None

    def on_ret(self, eng, st, i, val):
        if st.const(val) != 0:
            if any(lastfield(a)[1] in ("next", "prev", "front", "back") and root(a) in (("p", 0), ("p", 2)) for a, v in st.ts):
                self.bad(i, "failed", "a failing operation changes the links", st)
            return None
        self.checked += 1
        L, S, I = ("p", 0), "_rtList", "_rtListItem"

        def cell(b, fld):
            return mkgep(b, (("f", S if fld in ("front", "back", "size", "free") else I, fld),))
        stores = dict(st.ts)

        def now(b, fld):
            a = cell(b, fld)
            return stores.get(a, self.entry(a))

        def was(b, fld):
            return self.entry(cell(b, fld))

        def same(a, b):
            if a == b or st.isnull(a) is True and st.isnull(b) is True:
                return True
            k = ("op", "icmp eq") + tuple(sorted((a, b), key=repr))
            return st.rng(k) == (1, 1)

        def differs(a, b):
            k = ("op", "icmp eq") + tuple(sorted((a, b), key=repr))
            return st.rng(k) == (0, 0) or st.isnull(a) is True and st.isnull(b) is False or st.isnull(b) is True and st.isnull(a) is False

        def want(b, fld, v, what):
            # an item that is none has no links
            if b != L and st.isnull(b) is True:
                return
            if not same(now(b, fld), v):
                self.bad(i, fld + " of " + what, "after the operation %s's %s is not what it has to be" % (what, fld), st)

        def keep(b, fld, what):
            if b != L and st.isnull(b) is True:
                return
            want(b, fld, was(b, fld), what)

        kind = self.kind
        delta = st.ts and stores.get(cell(L, "size"))
        d = 1 if kind != "remove" else -1
        if not delta or offs(delta, was(L, "size")) not in (d, d % (1 << 64)):
            self.bad(i, "size", "the operation does not count the list's entries", st)
        if kind == "remove":
            x = ("p", 1)
            want(L, "free", x, "the list")
            if st.isnull(was(L, "free")) is False:
                want(x, "next", was(L, "free"), "the item kept for reuse")
            if ("g", "destroyed") in stores:
                want(x, "data", ("c", 0), "the item kept for reuse")
            p, n = was(x, "prev"), was(x, "next")
            want(p, "next", n, "the entry before")
            want(n, "prev", p, "the entry after")
            # the first entry has none before it, the last none after it
            if st.isnull(p) is not False and not differs(was(L, "front"), x):
                want(L, "front", n, "the list")
            if st.isnull(p) is False and not same(was(L, "front"), x):
                keep(L, "front", "the list")
            if st.isnull(n) is not False and not differs(was(L, "back"), x):
                want(L, "back", p, "the list")
            if st.isnull(n) is False and not same(was(L, "back"), x):
                keep(L, "back", "the list")
            return None

        def taken(x):
            if x == was(L, "free"):
                want(L, "free", was(x, "next"), "the list")
            else:
                keep(L, "free", "the list")
        end = {"front": ("front", "back", "next", "prev"), "back": ("back", "front", "prev", "next")}.get(kind)
        if end:
            near, far, to, away = end
            old = was(L, near)
            x = now(L, near)
            if x == old:
                self.bad(i, near, "the entry does not become the list's %s" % near, st)
                return None
            taken(x)
            want(x, to, old, "the new entry")
            want(x, away, ("c", 0), "the new entry")
            want(old, away, x, "the entry that was there")
            if st.isnull(was(L, far)) is True:
                want(L, far, x, "the list")
            elif st.isnull(was(L, far)) is False:
                keep(L, far, "the list")
            elif now(L, far) != x and st.isnull(old) is not False:
                self.bad(i, far, "the first entry of a list does not become its %s" % far, st)
            return None
        at = ("p", 2)
        near, far, to, away = ("front", "back", "prev", "next") if kind == "before" else ("back", "front", "next", "prev")
        x = now(at, to)
        if x == was(at, to):
            self.bad(i, to, "the entry is not linked to the one it was to be beside", st)
            return None
        q = was(at, to)
        taken(x)
        want(x, away, at, "the new entry")
        want(x, to, q, "the new entry")
        keep(at, away, "the one beside it")
        keep(L, far, "the list")
        if same(was(L, near), at) or not differs(was(L, near), at) and st.isnull(q) is True:
            want(L, near, x, "the list")
        elif differs(was(L, near), at) or st.isnull(q) is False:
            keep(L, near, "the list")
            if st.isnull(q) is not True:
                want(q, away, x, "the one on its other side")
        else:
            self.bad(i, near, "the operation does not ask whether it is at the list's %s" % near, st)
        return None

    def bad(self, i, obj, text, st):
        self.res.add("C19.links", self.f.dname, obj.replace(" ", "_"), i.where(), text, trail_text(st))


def offs(v, base):
    """v - base, if it is a constant"""
    k = 0
    while v[0] == "op" and v[1] in ("add", "sub"):
        a, b = v[2], v[3]
        if b[0] == "c":
            k += b[1] if v[1] == "add" else -b[1]
            v = a
        elif a[0] == "c" and v[1] == "add":
            k += a[1]
            v = b
        else:
            return None
    return k if v == base else None


def links(w, res):
    n = 0
    for name, kind in LISTOPS.items():
        f = w.m.fn(name)
        if f is None:
            continue
        c = Links(w, f, kind, res)
        Engine(w, f, c).run()
        n += c.checked
    res.count("ways through the list's operations", n, 8)


def run(w, res):
    rem = lists(w)
    ends(w, res, None, rem)
    index(w, res, rem)
    stale(w, res)
    links(w, res)
    R = Rules(w, res, rem)
    steps(w, res, R)
    res.rule("C19.ends: no loop has a way round on which nothing changes that any of its branches depends on (calls that only read give the same again; loops that wait are driven by others); "
             "C19.step: no entry is stepped from, looked at or removed again after it left its list (by the function, by what it calls with the entry's data, or, if other parts remove from the list, by anybody once it was unlocked), "
             "no memory is read, written, passed on or freed after it was freed, no local variable stays in a list after its function returned; "
             "C19.skip: no entry is stepped over without being looked at; "
             "C19.index: in a walk over a vector by a rising index the index stays when an entry is taken out, and the bound is asked for again; "
             "C19.stale: data taken out of a list that frees its data in the end does not stay in the item kept for reuse; "
             "C19.links: each operation on a list leaves exactly the links, ends, count and spare items that it has to, on every path")
    res.assume("a list's first entry has none before it and its last none after it when an operation starts; a vector's operations keep its entries in order")
