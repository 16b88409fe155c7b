"""Typestate engine: abstract interpretation of IR functions along their control-flow paths, with
exception edges.  Values are syntactic terms over parameters and results of calls; conditions are
decided only by equality of terms and constants (no solver); loop bodies are taken at most once.
Functions accepted by `inline` are entered, all others are recorded as events."""
import os
import re
import subprocess

_dem = {}


def demangle(name):
    if name not in _dem:
        r = subprocess.run(["/usr/bin/llvm-cxxfilt-18", name] if os.path.exists("/usr/bin/llvm-cxxfilt-18") else ["c++filt", name],
                           capture_output=True, text=True)
        _dem[name] = r.stdout.strip() or name
    return _dem[name]


def demangle_all(names):
    names = [n for n in names if n not in _dem]
    if not names:
        return
    tool = "/usr/bin/llvm-cxxfilt-18" if os.path.exists("/usr/bin/llvm-cxxfilt-18") else "c++filt"
    r = subprocess.run([tool], input="\n".join(names) + "\n", capture_output=True, text=True)
    for n, d in zip(names, r.stdout.split("\n")):
        _dem[n] = d or n


class Event:
    __slots__ = ("kind", "name", "args", "ret", "loc", "mem", "cls", "func", "lits", "stack")

    def __init__(self, kind, name, args, ret=None, loc=None, mem=None, cls=None, func=None, lits=None, stack=None):
        self.kind, self.name, self.args, self.ret, self.loc, self.mem = kind, name, args, ret, loc, mem
        self.cls, self.func, self.lits, self.stack = cls, func, lits, stack

    def __repr__(self):
        return "%s %s(%s)" % (self.kind, self.name, ", ".join(show(a) for a in self.args))


def show(v, d=0):
    if not isinstance(v, tuple):
        return str(v)
    if d > 5:
        return "..."
    k = v[0]
    if k == "int":
        return str(v[1])
    if k == "str":
        return repr(v[1])
    if k == "param":
        return v[1]
    if k == "ptr":
        return "&%s+%s" % (show(v[1], d + 1), v[2])
    return "%s(%s)" % (k, ",".join(show(x, d + 1) for x in v[1:]))


class Frame:
    __slots__ = ("fn", "block", "idx", "prev", "env", "dest", "visits", "id")

    def copy(self):
        f = Frame()
        f.fn, f.block, f.idx, f.prev, f.dest, f.id = self.fn, self.block, self.idx, self.prev, self.dest, self.id
        f.env = dict(self.env)
        f.visits = dict(self.visits)
        return f


class Path:
    __slots__ = ("frames", "mem", "lits", "events", "end", "ret", "n", "epoch", "order")

    def copy(self):
        p = Path()
        p.frames = [f.copy() for f in self.frames]
        p.mem = dict(self.mem)
        p.lits = dict(self.lits)
        p.order = list(self.order)
        p.events = list(self.events)
        p.end, p.ret, p.n, p.epoch = self.end, self.ret, self.n, self.epoch
        return p


def root_of(a):
    """allocation a pointer value points into"""
    while isinstance(a, tuple) and a[0] in ("ptr", "idx"):
        a = a[1]
    return a


def arith(t):
    """a computed number, as opposed to a value that came from somewhere"""
    return t[0] == "op" or t[0] == "cast" and isinstance(t[2], tuple) and arith(t[2])


class Budget(Exception):
    pass


def tosigned(v, n):
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v


class Engine:
    def __init__(self, mods, inline, model=None, max_paths=4000, max_steps=400000, may_throw=None):
        """mods: parsed modules with debug info [(Module, Debug)]"""
        self.fns = {}
        self.globals = {}
        for m, d in mods:
            for n, f in m.functions.items():
                if n not in self.fns or "linkonce" not in f.linkage:
                    self.fns[n] = (f, m, d)
            for n, g in m.globals.items():
                self.globals[(id(m), n)] = g
        demangle_all(sorted(set(self.fns) | {n for m, _ in mods for n in m.declares}))
        self.inline = inline
        self.model = model
        self.max_paths, self.max_steps = max_paths, max_steps
        self.may_throw = may_throw or (lambda n: True)
        self.cut = 0
        self.unroll = 2             # visits of a block (loops whose conditions are known: see `known_limit`)
        self.known_limit = None
        self._frees = {}
        self.new_throws = False     # operator new may throw
        self.inline_args = None     # (name, entry, args) -> enter the callee because of what it is given
        self.resolve_virtual = False
        self.track_use = False      # record loads through heap pointers

    # -------------------------------------------------------------- values
    def const(self, s, ty, m):
        s = s.strip()
        if s in ("null", "zeroinitializer"):
            return ("int", 0)
        if s in ("undef", "poison"):
            return ("undef",)
        if s == "true":
            return ("int", 1)
        if s == "false":
            return ("int", 0)
        if re.match(r"^-?\d+$", s):
            return ("int", int(s))
        if re.match(r"^-?\d", s) or s.startswith("0x"):
            return ("flt", s)
        if s.startswith("@"):
            n = s[1:].strip('"')
            g = self.globals.get((id(m), n))
            if g:
                mm = re.search(r'constant \[\d+ x i8\] c"((?:[^"\\]|\\.)*)"', g)
                if mm:
                    t = re.sub(r"\\([0-9A-Fa-f]{2})", lambda q: chr(int(q.group(1), 16)), mm.group(1))
                    return ("str", t.rstrip("\0"))
            return ("ptr", ("global", n), 0)
        mm = re.match(r"^(getelementptr|inttoptr|ptrtoint|bitcast)", s)
        if mm:
            mm = re.match(r'getelementptr inbounds \(\{ .*\}, ptr @"?(_ZTV[-\w.$]+)"?, i32 0, (?:inrange )?i32 0, i32 (\d+)\)$', s)
            if mm:
                return ("ptr", ("global", mm.group(1)), 8 * int(mm.group(2)))
        return ("cexpr", s)

    def val(self, p, fr, s, ty=None):
        s = s.strip() if isinstance(s, str) else s
        if s.startswith("%"):
            return fr.env.get(s, ("undef",))
        return self.const(s, ty, self.fns[fr.fn][1])

    def width(self, ty):
        return ty.a if ty is not None and ty.k == "int" else 64

    def op(self, op, a, b, ty):
        if a[0] == "int" and b[0] == "int":
            n = self.width(ty)
            x, y = a[1], b[1]
            ux, uy = x & ((1 << n) - 1), y & ((1 << n) - 1)
            try:
                r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: ux & uy, "or": lambda: ux | uy,
                     "xor": lambda: ux ^ uy, "shl": lambda: x << uy, "lshr": lambda: ux >> uy, "ashr": lambda: x >> uy,
                     "udiv": lambda: ux // uy if uy else None, "urem": lambda: ux % uy if uy else None,
                     "sdiv": lambda: int(x / y) if y else None, "srem": lambda: x - int(x / y) * y if y else None}[op]()
                if r is not None:
                    return ("int", tosigned(r, n) if n > 1 else r & 1)
            except KeyError:
                pass
        if op == "sub" and a[0] == "ptr" and b[0] == "ptr" and a[1] == b[1] and isinstance(a[2], int) and isinstance(b[2], int):
            return ("int", a[2] - b[2])
        if op == "add" and b == ("int", 0) or op == "mul" and b == ("int", 1) or op in ("sub", "shl", "or") and b == ("int", 0):
            return a
        if op == "xor" and ty is not None and ty.k == "int" and ty.a == 1 and b == ("int", 1):
            return self.neg(a)
        if op in ("add", "mul", "and", "or", "xor", "fadd", "fmul") and repr(b) < repr(a):
            a, b = b, a
        return ("op", op, a, b)

    @staticmethod
    def neg(c):
        if c[0] == "int":
            return ("int", 1 - (c[1] & 1))
        if c[0] == "not":
            return c[1]
        return ("not", c)

    def cmp(self, pred, a, b):
        if a[0] == "int" and b[0] == "int":
            x, y = a[1], b[1]
            u = lambda v: v & ((1 << 64) - 1)
            r = {"eq": x == y, "ne": x != y, "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y, "ult": u(x) < u(y),
                 "ule": u(x) <= u(y), "ugt": u(x) > u(y), "uge": u(x) >= u(y)}.get(pred)
            if r is not None:
                return ("int", int(r))
        if a == b and pred in ("slt", "sgt", "ult", "ugt") and a[0] != "undef":
            return ("int", 0)
        if a == b and pred in ("sle", "sge", "ule", "uge") and a[0] != "undef":
            return ("int", 1)
        if a[0] == "ptr" and b[0] == "ptr" and a[1] == b[1] and isinstance(a[2], int) and isinstance(b[2], int) and pred not in ("eq", "ne"):
            return self.cmp(pred, ("int", a[2]), ("int", b[2]))
        if pred == "ne":
            return self.neg(self.cmp("eq", a, b))
        if pred == "eq":
            if a == b:
                return ("int", 1)
            if a[0] == "int":
                a, b = b, a
            if a[0] == "ptr" and b[0] == "ptr":
                if a[1] == b[1]:
                    return ("int", int(a[2] == b[2]))
                if a[1][0] in ("alloca", "heap", "global", "acquired") and b[1][0] in ("alloca", "heap", "global", "acquired"):
                    return ("int", 0)
            if b == ("int", 0):
                if a[0] == "ptr":
                    return ("int", 0)
                if a[0] == "cast" and a[1] in ("zext", "sext"):
                    return self.cmp("eq", a[2], b)
                if a[0] in ("cmp", "not"):
                    return self.neg(a)
                if a[0] in ("acquired", "str"):
                    return ("int", 0)
            if b == ("int", 1) and a[0] in ("cmp", "not"):
                return a
            return ("cmp", "eq", a, b)
        inv = {"sgt": ("slt", 1), "sge": ("slt", 0), "sle": ("slt", 1), "ugt": ("ult", 1), "uge": ("ult", 0), "ule": ("ult", 1)}
        if pred in ("sgt", "ugt"):
            return ("cmp", pred[0] + "lt", b, a)
        if pred in ("sge", "uge"):
            return self.neg(("cmp", pred[0] + "lt", a, b))
        if pred in ("sle", "ule"):
            return self.neg(("cmp", pred[0] + "lt", b, a))
        return ("cmp", pred, a, b)

    def decide(self, p, c):
        """True/False/None"""
        if c[0] == "int":
            return bool(c[1] & 1)
        if c[0] == "not":
            r = self.decide(p, c[1])
            return None if r is None else not r
        if c in p.lits:
            return p.lits[c]
        if c[0] == "cmp" and c[1] == "eq" and c[3][0] == "int":
            for l, v in p.lits.items():
                if v and l[0] == "cmp" and l[1] == "eq" and l[2] == c[2] and l[3][0] == "int" and l[3] != c[3]:
                    return False
        if c[0] == "op" and c[1] in ("and", "or"):
            x, y = self.decide(p, c[2]), self.decide(p, c[3])
            if c[1] == "and":
                return False if x is False or y is False else True if x and y else None
            return True if x or y else False if x is False and y is False else None
        return None

    def assume(self, p, c, pol):
        while c[0] == "not":
            c, pol = c[1], not pol
        p.lits[c] = pol
        p.order.append((c, pol))
        if pol and c[0] == "cmp" and c[1] == "eq" and c[3][0] == "int" and arith(c[2]):
            self.substitute(p, c[2], c[3])

    def substitute(self, p, x, n):
        """a value that turned out to be a constant on this path"""
        memo = {x: n}

        def rew(t):
            if not isinstance(t, tuple) or not t or t[0] in ("int", "param", "ret", "heap", "alloca", "global", "str", "undef", "fid"):
                return t
            r = memo.get(t)
            if r is not None:
                return r
            u = tuple(rew(a) for a in t)
            if u != t:
                if u[0] == "op" and len(u) == 4:
                    u = self.op(u[1], u[2], u[3], None)
                elif u[0] == "cmp" and len(u) == 4:
                    u = self.cmp(u[1], u[2], u[3])
                elif u[0] == "not":
                    u = self.neg(u[1])
                elif u[0] == "cast" and u[1] in ("zext", "sext") and u[2][0] == "int" and 0 <= u[2][1] < 1 << 31:
                    u = u[2]
                elif u[0] == "ptr" and u[1][0] == "idx" and isinstance(u[1][2], int):
                    off, rest, ok = 0, u[1][3], True
                    while rest is not None:
                        ok = ok and rest[1][0] == "int"
                        if ok:
                            off += rest[1][1] * rest[2]
                        rest = rest[0]
                    if ok and isinstance(u[2], int):
                        u = ("ptr", u[1][1], u[1][2] + off + u[2])
            memo[t] = u
            return u
        for fr in p.frames:
            for k, v in list(fr.env.items()):
                w = rew(v)
                if w is not v:
                    fr.env[k] = w
        for k, v in list(p.mem.items()):
            if isinstance(v, tuple):
                w = rew(v)
                if w is not v:
                    p.mem[k] = w
            a = rew(("ptr",) + k) if isinstance(k[0], tuple) else None
            if a is not None and a != ("ptr",) + k and a[0] == "ptr":
                p.mem[(a[1], a[2])] = p.mem.pop(k)

    # -------------------------------------------------------------- memory
    def load(self, p, a, ty, m):
        if a[0] == "ptr":
            k = (a[1], a[2])
            if ty.k == "named" or ty.k == "struct" or ty.k == "array":
                t = m.layout.resolve(ty)
                if t.k == "struct":
                    offs, _, _ = m.layout.struct(t)
                    return ("struct",) + tuple(self.load(p, ("ptr", a[1], a[2] + o), f, m) for o, f in zip(offs, t.a[0]))
                if t.k == "array":
                    sz = m.layout.size(t.a[1])
                    if t.a[0] <= 16:
                        return ("struct",) + tuple(self.load(p, ("ptr", a[1], a[2] + sz * i), t.a[1], m) for i in range(t.a[0]))
            v = p.mem.get(k)
            if v is not None:
                return v
            if a[1][0] in ("alloca",) and ("undefined", a[1]) not in p.mem:
                return ("undef",)
            z = p.mem.get((a[1], "zero"))
            if z:
                return ("int", 0)
            if a[1][0] == "global" and a[1][1].startswith("_ZTV") and isinstance(a[2], int) and ty.k == "ptr":
                e = self.vtable(a[1][1], m)
                if e and a[2] % 8 == 0 and a[2] // 8 < len(e):
                    return ("ptr", ("global", e[a[2] // 8]), 0) if e[a[2] // 8] else ("int", 0)
            return ("mem", a[1], a[2])
        return ("mem", a, 0)

    def vtable(self, name, m):
        """entries of the primary virtual table"""
        g = self.globals.get((id(m), name))
        if g is None:
            for (i, n), t in self.globals.items():
                if n == name and "{ [" in t and " x ptr] [" in t:
                    g = t
                    break
        mm = re.search(r"\[\d+ x ptr\] \[(.*?)\]", g or "")
        if not mm:
            return None
        return [q.group(1) if (q := re.search(r'@"?([-\w.$]+)"?', e)) else None for e in mm.group(1).split(", ptr ")]

    def store(self, p, a, v, ty, m):
        if a[0] == "ptr":
            if v[0] == "struct" and ty.k in ("named", "struct", "array"):
                t = m.layout.resolve(ty)
                if t.k == "struct":
                    offs, _, _ = m.layout.struct(t)
                    for o, f, x in zip(offs, t.a[0], v[1:]):
                        self.store(p, ("ptr", a[1], a[2] + o), x, f, m)
                    return
                sz = m.layout.size(t.a[1])
                for i, x in enumerate(v[1:]):
                    self.store(p, ("ptr", a[1], a[2] + sz * i), x, t.a[1], m)
                return
            p.mem[(a[1], a[2])] = v

    # -------------------------------------------------------------- running
    def run(self, name, argvals):
        """all paths through function `name`"""
        f, m, d = self.fns[name]
        p = Path()
        p.frames, p.mem, p.lits, p.events, p.end, p.ret, p.n, p.epoch, p.order = [], {}, {}, [], None, None, 0, 0, []
        self.push(p, name, argvals, None)
        todo, done = [p], []
        self.steps = 0
        while todo:
            q = todo.pop()
            for r in self.advance(q):
                if r.end:
                    done.append(r)
                else:
                    todo.append(r)
            if len(done) + len(todo) > self.max_paths:
                raise Budget("more than %d paths" % self.max_paths)
        return done

    def push(self, p, name, argvals, dest):
        f, m, d = self.fns[name]
        fr = Frame()
        fr.fn, fr.block, fr.idx, fr.prev, fr.dest, fr.visits = name, f.order[0].name, 0, None, dest, {}
        p.n += 1
        fr.id = p.n
        fr.env = {pn: v for (pn, t, at), v in zip(f.params, argvals)}
        p.frames.append(fr)

    def goto(self, p, fr, target, forked=False):
        fr.prev, fr.block, fr.idx = fr.block, target, 0
        if self.known_limit is None:
            fr.visits[target] = fr.visits.get(target, 0) + 1
            if fr.visits[target] > self.unroll:
                self.cut += 1
                return False
        else:       # only undecided branches count towards the bound
            k = (target, forked)
            fr.visits[k] = fr.visits.get(k, 0) + 1
            if fr.visits[k] > (self.unroll if forked else self.known_limit):
                self.cut += 1
                return False
        f = self.fns[fr.fn][0]
        b = f.blocks[target]
        new = {}
        k = 0
        for ins in b.insts:
            if ins.op != "phi":
                break
            k += 1
            for v, src in ins.args:
                if src == fr.prev:
                    new[ins.name] = self.val(p, fr, v)
                    break
            else:
                new[ins.name] = ("undef",)
        fr.env.update(new)
        fr.idx = k
        return True

    def unwind(self, p):
        """propagate an exception; False when it leaves the outermost function"""
        while p.frames:
            fr = p.frames[-1]
            f = self.fns[fr.fn][0]
            ins = f.blocks[fr.block].insts[fr.idx]
            if ins.op == "invoke":
                return self.goto(p, fr, ins.extra["unwind"])
            p.frames.pop()
        p.end = "throw"
        return True

    def frees(self, fn):
        """does the function free memory itself"""
        r = self._frees.get(fn)
        if r is None:
            r = self._frees[fn] = any(i.op in ("call", "invoke") and i.extra.get("callee", "").startswith("@_Zd") for b in self.fns[fn][0].order for i in b.insts)
        return r

    def handled(self, p):
        for fr in p.frames:
            f = self.fns[fr.fn][0]
            if f.blocks[fr.block].insts[fr.idx].op == "invoke":
                return True
        return False

    def loc(self, ins, fn):
        return self.fns[fn][2].loc(ins.dbg)

    def advance(self, p):
        """run path p until it forks or ends; list of successor paths"""
        while True:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget("more than %d steps" % self.max_steps)
            fr = p.frames[-1]
            f, m, d = self.fns[fr.fn]
            ins = f.blocks[fr.block].insts[fr.idx]
            op = ins.op
            v = lambda s: self.val(p, fr, s)
            if op in ("call", "invoke"):
                r = self.call(p, fr, ins, m)
                if r is not None:
                    return r
                continue
            if op == "br":
                if len(ins.args) == 1:
                    if not self.goto(p, fr, ins.args[0]):
                        return []
                    continue
                c = v(ins.args[0])
                dd = self.decide(p, c)
                if dd is not None:
                    if not self.goto(p, fr, ins.args[1] if dd else ins.args[2]):
                        return []
                    continue
                out = []
                if self.frees(fr.fn) and c[0] != "undef" and (c[1] if c[0] == "not" else c)[:2] in (("cmp", "ult"), ("cmp", "slt")):
                    p.events.append(Event("guess", "branch", (c,), loc=self.loc(ins, fr.fn), func=fr.fn))
                for pol, tgt in ((True, ins.args[1]), (False, ins.args[2])):
                    q = p.copy()
                    self.assume(q, c, pol)
                    if self.goto(q, q.frames[-1], tgt, True):
                        out.append(q)
                return out
            if op == "switch":
                x = v(ins.args[0])
                cases = ins.extra["cases"]
                out, neg = [], []
                hit = False
                for c, tgt in cases:
                    l = self.cmp("eq", x, ("int", c))
                    dd = self.decide(p, l)
                    if dd is False:
                        continue
                    q = p.copy()
                    if dd is None:
                        for n in neg:
                            self.assume(q, n, False)
                        self.assume(q, l, True)
                    if self.goto(q, q.frames[-1], tgt):
                        out.append(q)
                    if dd:
                        hit = True
                        break
                    neg.append(l)
                if not hit:
                    q = p.copy()
                    for n in neg:
                        self.assume(q, n, False)
                    if self.goto(q, q.frames[-1], ins.extra["default"]):
                        out.append(q)
                return out
            if op == "ret":
                rv = v(ins.args[0]) if ins.args else None
                p.frames.pop()
                if not p.frames:
                    p.end, p.ret = "return", rv
                    return [p]
                g = p.frames[-1]
                gi = self.fns[g.fn][0].blocks[g.block].insts[g.idx]
                if gi.name:
                    g.env[gi.name] = rv
                if not self.after_call(p, g, gi):
                    return []
                continue
            if op == "resume":
                # continue unwinding in the callers
                p.frames.pop()
                if not p.frames:
                    p.end = "throw"
                    return [p]
                if not self.unwind(p):
                    return []
                if p.end:
                    return [p]
                continue
            if op == "unreachable":
                p.end = "unreachable"
                return [p]
            r = None
            if op == "alloca":
                r = ("ptr", ("alloca", fr.id, ins.name, fr.fn), 0)
            elif op == "load":
                a = v(ins.args[0])
                if self.track_use and a[0] == "ptr" and root_of(a)[0] == "heap":
                    p.events.append(Event("load", "load", (a,), loc=self.loc(ins, fr.fn), func=fr.fn))
                r = self.load(p, a, ins.ty, m)
            elif op == "store":
                a = v(ins.args[1])
                x = v(ins.args[0])
                self.store(p, a, x, ins.ty, m)
                if a[0] != "ptr" or a[1][0] not in ("alloca",):
                    p.events.append(Event("store", "store", (a, x), loc=self.loc(ins, fr.fn), func=fr.fn))
            elif op == "getelementptr":
                r = self.gep(p, fr, ins, m)
            elif op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc"):
                a = v(ins.args[0])
                if op in ("bitcast", "ptrtoint", "inttoptr"):
                    r = a
                    if op == "inttoptr" and a[0] not in ("ptr", "int"):
                        r = ("ptr", a, 0)
                    if op == "ptrtoint" and a[0] == "ptr" and a[2] == 0 and a[1][0] not in ("alloca", "heap", "global"):
                        r = a[1]
                elif a[0] == "int" and op in ("zext", "sext", "trunc"):
                    n = ins.extra["from"].a if ins.extra["from"].k == "int" else 64
                    x = a[1] & ((1 << n) - 1)
                    if op == "sext":
                        x = tosigned(x, n) if n > 1 else -x
                    r = ("int", x if op == "zext" else tosigned(x, ins.ty.a) if ins.ty.a > 1 else x & 1)
                elif op == "trunc" and a[0] == "cast" and a[1] in ("zext", "sext"):
                    r = a[2]
                else:
                    r = ("cast", op, a, repr(ins.ty))
            elif op == "icmp":
                r = self.cmp(ins.extra["pred"], v(ins.args[0]), v(ins.args[1]))
            elif op == "fcmp":
                r = ("cmp", "f" + ins.extra["pred"], v(ins.args[0]), v(ins.args[1]))
            elif op == "select":
                c, a, b = (v(x) for x in ins.args)
                dd = self.decide(p, c)
                if dd is None:
                    out = []
                    for pol in (True, False):
                        q = p.copy()
                        self.assume(q, c, pol)
                        g = q.frames[-1]
                        g.env[ins.name] = a if pol else b
                        g.idx += 1
                        out.append(q)
                    return out
                r = a if dd else b
            elif op == "extractvalue":
                a = v(ins.args[0])
                r = a
                for x in ins.args[1:]:
                    r = r[1 + int(x)] if r[0] == "struct" and len(r) > 1 + int(x) else ("xv", r, int(x))
            elif op == "insertvalue":
                from .ir import parse_type
                a = v(ins.args[0])
                t, s = parse_type(ins.args[1])
                x = v(s)
                k = int(ins.args[2])
                l = list(a[1:]) if a[0] == "struct" else []
                while len(l) <= k:
                    l.append(("undef",))
                l[k] = x
                r = ("struct",) + tuple(l)
            elif op == "landingpad":
                r = ("struct", ("exc", fr.id), ("sel", fr.id, len(p.events)))
            elif op == "fneg":
                r = ("op", "fneg", v(ins.args[0]), ("int", 0))
            elif op == "freeze":
                r = v(ins.args[0])
            elif len(ins.args) >= 2 and isinstance(ins.args[0], str) and isinstance(ins.args[1], str):
                r = self.op(op, v(ins.args[0]), v(ins.args[1]), ins.ty)
            else:
                r = ("opaque", fr.id, ins.name)
            if ins.name is not None:
                fr.env[ins.name] = r
            fr.idx += 1

    def gep(self, p, fr, ins, m):
        base = self.val(p, fr, ins.args[0][1])
        L = m.layout
        off, sym = 0, None
        t = ins.ty
        for k, (ty, s) in enumerate(ins.args[1:]):
            x = self.val(p, fr, s)
            if k == 0:
                sz = L.size(t)
                if x[0] == "int":
                    off += x[1] * sz
                else:
                    sym = (sym, x, sz)
            else:
                t = L.resolve(t)
                if t.k == "struct":
                    offs, _, _ = L.struct(t)
                    off += offs[x[1]]
                    t = t.a[0][x[1]]
                else:
                    t = t.a[1]
                    sz = L.size(t)
                    if x[0] == "int":
                        off += x[1] * sz
                    else:
                        sym = (sym, x, sz)
        if base[0] != "ptr":
            if off == 0 and sym is None:
                return base
            base = ("ptr", base, 0)
        if sym is not None:
            return ("ptr", ("idx", base[1], base[2] + off, sym), 0)
        return ("ptr", base[1], base[2] + off)

    def after_call(self, p, fr, ins):
        if ins.op == "invoke":
            return self.goto(p, fr, ins.extra["normal"])
        fr.idx += 1
        return True

    def call(self, p, fr, ins, m):
        """None: continue; list: successor paths"""
        callee = ins.extra["callee"]
        args = []
        for a in ins.args:
            if a[0].k == "metadata":
                args.append(("meta",))
            else:
                args.append(self.val(p, fr, a[1]))
        name = callee[1:] if callee.startswith("@") else None
        if name is None and self.resolve_virtual:
            t = self.val(p, fr, callee)
            if t[0] == "ptr" and t[1][0] == "global" and t[2] == 0 and t[1][1] in self.fns:
                name = t[1][1]
        if name is not None and name.startswith("llvm."):
            self.intrinsic(p, fr, ins, name, args, m)
            return None if self.after_call(p, fr, ins) else []
        if name == "__cxa_throw":
            p.events.append(Event("throw", "throw", tuple(args), loc=self.loc(ins, fr.fn), func=fr.fn))
            if not self.unwind(p):
                return []
            return [p] if p.end else None
        if name in ("__cxa_rethrow",):
            if ins.op == "invoke":
                return None if self.goto(p, fr, ins.extra["unwind"]) else []
            p.frames.pop()
            if not p.frames:
                p.end = "throw"
                return [p]
            if not self.unwind(p):
                return []
            return [p] if p.end else None
        if name in ("__clang_call_terminate", "_ZSt9terminatev", "abort", "__cxa_pure_virtual"):
            p.end = "abort"
            return [p]
        if name is not None and name not in self.fns:       # complete and base object constructors are aliases
            for a, b in (("C1E", "C2E"), ("D1E", "D2E")):
                if a in name and name.replace(a, b) in self.fns:
                    name = name.replace(a, b)
                    break
        if name is not None and name in self.fns and len(p.frames) < 30 and (
                self.inline(name, self.fns[name]) or self.inline_args and self.inline_args(name, self.fns[name], args)):
            self.push(p, name, args, None)
            return None
        # an event
        vcls = None
        if name is None:
            name, vcls = self.virtual(p, fr, ins, args)
        ev = Event("call", name, tuple(args), loc=self.loc(ins, fr.fn), func=fr.fn, cls=vcls)
        ev.stack = [x.fn for x in p.frames]
        r = None
        handled = False
        if self.model:
            handled, r = self.model(self, p, ev, ins)
        if not handled:
            ev.mem = self.snapshot(p, args)
            if re.match(r"_Zn[wa]m", name):
                p.n += 1
                r = ("ptr", ("heap", p.n, name), 0)
                ev.kind = "new"
            elif re.match(r"_Zd[la]Pv", name):
                ev.kind = "delete"
            elif name == "__cxa_allocate_exception":
                p.n += 1
                r = ("ptr", ("exc", p.n), 0)
            else:
                r = None
                if ins.ty is not None and ins.ty.k != "void":
                    # const member functions of smart pointers give the same value every time
                    pure = demangle(name).endswith(("get() const", "operator->() const", "operator*() const"))
                    r = ("ret", name) + tuple(args) if pure else ("ret", name, len(p.events))
                for a in args:      # objects handed to an unknown function
                    if a[0] == "ptr" and a[1][0] == "alloca":
                        p.mem[("undefined", a[1])] = 1
            p.events.append(ev)
        ev.ret = r
        if ins.name:
            fr.env[ins.name] = r if r is not None else ("undef",)
        if not handled and (ev.kind == "call" and self.may_throw(name) and self.handled(p) or
                            ev.kind == "new" and self.new_throws and "nothrow" not in name):
            q = p.copy()
            if ev.kind == "new":
                q.events.remove(ev)
            q.events.append(Event("threw", name, (), loc=ev.loc, func=fr.fn))
            out = []
            if self.unwind(q):
                out.append(q)
            if self.after_call(p, fr, ins):
                out.append(p)
            return out
        return None if self.after_call(p, fr, ins) else []

    def snapshot(self, p, args):
        return dict(p.mem) if any(a[0] == "ptr" for a in args) else {}

    def virtual(self, p, fr, ins, args):
        """callee loaded from a vtable: its slot, and the class named by the type test on that vtable"""
        f = self.fns[fr.fn][0]
        defs = {}
        for b in f.order:
            for i in b.insts:
                if i.name:
                    defs[i.name] = i
        c = defs.get(ins.extra["callee"])
        slot, vt = None, None
        if c is not None and c.op == "load":
            g = defs.get(c.args[0])
            if g is not None and g.op == "getelementptr":
                slot, vt = g.args[-1][1], g.args[0][1]
            else:
                slot, vt = "0", c.args[0]
        cls = None
        if vt:
            for b in f.order:
                for i in b.insts:
                    if i.op == "call" and i.extra.get("callee", "").startswith(("@llvm.type.test", "@llvm.public.type.test")) and i.args and i.args[0][1] == vt:
                        mm = re.search(r'"(_ZTS[^"]*)"', i.text)
                        if mm:
                            cls = mm.group(1)
        return "virtual:%s" % slot, cls

    def intrinsic(self, p, fr, ins, name, args, m):
        r = None
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            d, s, n = args[:3]
            if self.track_use:
                for a in (d, s):
                    if root_of(a)[0] == "heap" and n != ("int", 0):
                        p.events.append(Event("load", name[5:12], (a if a[0] == "ptr" else ("ptr", a, 0),), loc=self.loc(ins, fr.fn), func=fr.fn))
            if d[0] == "ptr" and s[0] == "ptr" and n[0] == "int":
                for (rg, o), x in list(p.mem.items()):
                    if rg == d[1] and isinstance(o, int) and d[2] <= o < d[2] + n[1]:
                        del p.mem[(rg, o)]
                for (rg, o), x in list(p.mem.items()):
                    if rg == s[1] and isinstance(o, int) and s[2] <= o < s[2] + n[1]:
                        p.mem[(d[1], d[2] + o - s[2])] = x
                if (s[1], "zero") in p.mem:
                    p.mem[(d[1], "zero")] = 1
            else:
                p.events.append(Event("copy", "memcpy", (d, s, n), loc=self.loc(ins, fr.fn), func=fr.fn))
        elif name.startswith("llvm.memset"):
            d, c, n = args[:3]
            if d[0] == "ptr" and n[0] == "int" and c == ("int", 0):
                for (rg, o), x in list(p.mem.items()):
                    if rg == d[1] and isinstance(o, int) and d[2] <= o < d[2] + n[1]:
                        del p.mem[(rg, o)]
                p.mem[(d[1], "zero")] = 1
        elif name.startswith("llvm.eh.typeid"):
            r = ("typeid", show(args[0]))
        elif name.startswith("llvm.expect"):
            r = args[0]
        elif ins.name:
            r = ("intr", name) + tuple(a for a in args if a != ("meta",))
        if name.startswith("llvm.umul.with.overflow"):
            a, b = args[:2]
            r = ("struct", self.op("mul", a, b, None), ("int", 0))
        if name.startswith(("llvm.type.test", "llvm.public.type.test")):
            r = ("int", 1)
        if ins.name:
            fr.env[ins.name] = r if r is not None else ("undef",)
