"""Random interpretation of closed forms (Gulwani & Necula): terms, not the program, are given
meanings.  Used only to separate a closed form from its specification when their normal forms
differ; a pair that no valuation separates is reported as undecided, never as a violation."""
import random
import re
from fractions import Fraction
from .terms import *
from . import terms as T


class Undefined(Exception):
    pass


BITOP = re.compile(r"^(and|or|xor|shl|lshr|ashr)(\d+)$")


class Interp:
    def __init__(self, rng, roots, mode=0):
        self.rng = rng
        self.roots = roots          # name -> Root
        self.env = {}
        self.content = {}
        self.mode = mode
        self.memo = {}
        self.bound = {}
        self.live = {}
        self.ver = 0
        self.mat = {}
        self.budget = 400000
        self.writer = {}
        self.apps = {}
        self.seed = rng.getrandbits(60)
        self.generic = None

    # ---- helpers
    def key(self, t):
        b = [(a.id, self.bound[a]) for a in t.fv if a in self.bound]
        if len(b) > 1:
            b.sort()
        return (t, tuple(b))

    def poly(self, p):
        c = p.const()
        if c is not None:
            return c
        k = self.key(p)
        r = self.memo.get(k)
        if r is not None:
            return r
        self.budget -= 1
        if self.budget < 0:
            raise Undefined("budget")
        tot = 0
        for m, c in p.items:
            # indicators first
            z = False
            for a in m:
                if a.kind == "ind" and not self.atom(a):
                    z = True
                    break
            if z:
                continue
            v = c
            late = None
            for a in m:
                if a.kind != "ind":
                    try:
                        v = v * self.atom(a)
                    except Undefined as e:
                        if str(e) not in ("division by zero", "float division by zero"):
                            raise
                        late = e        # a factor 0 elsewhere in the product decides
                        continue
                    if v == 0:
                        break
            if late is not None and v != 0:
                raise late
            tot = tot + v
        if isinstance(tot, Fraction) and tot.denominator == 1:
            tot = tot.numerator
        self.memo[k] = tot
        return tot

    def bdd(self, b):
        while b.var is not None:
            b = b.hi if self.atom(b.var) else b.lo
        return b is TRUE

    def atom(self, a):
        k = a.kind
        if k == "sym":
            if a in self.bound:
                return self.bound[a]
            v = self.env.get(a)
            if v is None:
                if self.generic is None:
                    raise Undefined("symbol %s" % a)
                v = self.env[a] = self.generic(a)
            return v
        if k == "bv":
            return self.bound[a]
        if k == "ind":
            v = self.poly(a.args[1])
            o = a.args[0]
            return 1 if (v >= 0 if o in ("ge", "rge") else v == 0 if o == "eq" else v > 0) else 0
        kk = self.key(a)
        r = self.memo.get(kk)
        if r is None:
            r = self._atom(a)
            self.memo[kk] = r
        return r

    def with_bound(self, var, val, f, *args):
        old = self.bound.get(var)
        self.bound[var] = val
        try:
            return f(*args)
        finally:
            if old is None:
                del self.bound[var]
            else:
                self.bound[var] = old

    def _atom(self, a):
        k, A = a.kind, a.args
        if k == "U":
            v = self.poly(A[1])
            return self.toint(v) % (1 << A[0])
        if k == "S":
            v = self.toint(self.poly(A[1])) % (1 << A[0])
            return v - (1 << A[0]) if v >> (A[0] - 1) else v
        if k == "div":
            x, y = self.toint(self.poly(A[0])), self.toint(self.poly(A[1]))
            if y == 0:
                raise Undefined("division by zero")
            q = abs(x) // abs(y)
            return q if (x >= 0) == (y > 0) else -q
        if k == "inv":
            v = self.poly(A[0])
            if v == 0:
                raise Undefined("float division by zero")
            return Fraction(1) / v
        if k == "ftoi":
            v = self.poly(A[2])
            n = int(v)
            lo, hi = (-(1 << (A[0] - 1)), (1 << (A[0] - 1)) - 1) if A[1] else (0, (1 << A[0]) - 1)
            if not lo <= n <= hi:
                # undefined: any value
                n = self.hash("ftoi", A[0], A[1], v).randint(lo, hi)
            return n
        if k == "sum":
            n = self.count(A[1])
            bv = T.mk("bv", A[0])
            tot = 0
            for i in range(n):
                tot += self.with_bound(bv, i, self.poly, A[2])
            return tot
        if k == "red":
            h, op, N, init, body = A
            n = self.count(N)
            bv = T.mk("bv", h)
            v = self.poly(init)
            for i in range(n):
                x = self.with_bound(bv, i, self.poly, body)
                v = max(v, x) if op == "max" else min(v, x)
            return v
        if k == "first":
            h, N, body = A
            n = self.count(N)
            bv = T.mk("bv", h)
            for i in range(n):
                if self.with_bound(bv, i, self.poly, body):
                    return i
            return n
        if k == "fold":
            h, N, which, canon, inits, nexts = A
            n = self.count(N)
            bv = T.mk("bv", h)
            vals = [self.poly(x) for x in inits]
            saved = {c: self.bound.get(c) for c in canon}
            try:
                for i in range(n):
                    for c, v in zip(canon, vals):
                        self.bound[c] = v
                    vals = [self.with_bound(bv, i, self.poly, x) for x in nexts]
            finally:
                for c, v in saved.items():
                    if v is None:
                        self.bound.pop(c, None)
                    else:
                        self.bound[c] = v
            return vals[which]
        if k == "read":
            idx = self.toint(self.poly(A[1]))
            return self.read(A[0], idx, a.extra, a.isint)
        if k == "app":
            args = tuple(self.poly(x) for x in A[1:])
            return self.app(A[0], args, a)
        raise Undefined(k)

    def toint(self, v):
        if isinstance(v, Fraction):
            if v.denominator != 1:
                raise Undefined("non integer")
            return v.numerator
        return int(v)

    def count(self, N):
        n = self.poly(N)
        n = self.toint(n)
        if n > 9000:
            raise Undefined("large loop")
        return n

    def hash(self, *k):
        return random.Random("%s|%r" % (self.seed, k))

    def app(self, f, args, a):
        if f.startswith(("opq#", "ext:", "const_", "ld", "bytes")):
            raise Undefined(f)
        m = BITOP.match(f)
        if m:
            n = int(m.group(2))
            x, y = (self.toint(z) % (1 << n) for z in args)
            o = m.group(1)
            if o in ("and", "or", "xor"):
                return x & y if o == "and" else x | y if o == "or" else x ^ y
            if y >= n:
                raise Undefined("shift")
            if o == "ashr" and x >> (n - 1):
                x -= 1 << n
            return (x << y) % (1 << n) if o == "shl" else x >> y
        k = (f, args)
        v = self.apps.get(k)
        if v is None:
            r = self.hash("app", f, args)
            v = self.value(r, a.extra or (("i", 32) if a.isint else ("f", 32)))
            if f == "round" and isinstance(args[0], (int, Fraction)):
                q = abs(Fraction(args[0])) + Fraction(1, 2)
                v = int(q) * (1 if args[0] >= 0 else -1)
            elif f == "floor":
                v = args[0] // 1
            elif f == "ceil":
                v = -((-args[0]) // 1)
            elif f == "trunc":
                v = int(args[0])
            elif f in ("exp", "sqrt", "fabs"):
                v = abs(v) + Fraction(1, 7)
            self.apps[k] = v
        return v

    def value(self, r, ety):
        s, n = ety[0], ety[1]
        m = self.mode
        if s == "f":
            if m == 1:
                return -r.randint(1, 40)
            return Fraction(r.randint(-60, 60), r.choice([1, 1, 2, 4])) if m != 2 else r.randint(0, 3)
        if m == 0:
            lo, hi = (0, 12) if s == "u" else (-9, 9)
        elif m == 1:
            lo, hi = (0, min((1 << n) - 1, 255)) if s == "u" else (-min(1 << (n - 1), 300), -1)
        elif m == 2:
            lo, hi = 0, 1
        else:
            hi = (1 << n) - 1 if n <= 16 else 70000
            lo = 0 if s == "u" else -min(1 << (n - 1), 70000)
            if s != "u" and n <= 16:
                hi = (1 << (n - 1)) - 1
        return r.randint(lo, hi)

    def init_value(self, root, idx, ety):
        k = (root, idx)
        v = self.content.get(k)
        if v is None:
            r = self.roots.get(root)
            if r is not None and isinstance(r.info, tuple) and r.info[0] == "const":
                if not 0 <= idx < len(r.info[1]):
                    raise Undefined("constant table index")
                return r.info[1][idx]
            e = r.ety if r is not None and r.ety else (ety or ("i", 32))
            v = self.value(self.hash("c", root, idx), e)
            self.content[k] = v
        return v

    def read(self, arr, idx, ety, isint):
        base, over = self.materialise(arr)
        v = over.get(idx)
        if v is not None:
            v = v[0]
        elif base.kind == "zero":
            return 0
        elif base.kind == "var":
            lv = self.live.get(base.args[0]) if base.args[0] in self.bound else None
            if lv is None:
                raise Undefined("unknown array")
            v = lv[1].get(idx)
            if v is not None:
                v = v[0]
            elif lv[0].kind == "zero":
                return 0
            elif lv[0].kind == "var":
                raise Undefined("unknown array")
            else:
                v = self.init_value(lv[0].root, idx, ety)
        else:
            v = self.init_value(base.root, idx, ety)
        r = self.roots.get(arr.root)
        return self.represent(v, ety)

    def represent(self, v, ety):
        if ety and ety[0] in ("u", "s") and ety[1] < 32 and not isinstance(v, Fraction):
            v = v % (1 << ety[1])
            if ety[0] == "s" and v >> (ety[1] - 1):
                v -= 1 << ety[1]
        return v

    def materialise(self, arr):
        k = self.key(arr)
        r = self.mat.get(k)
        if r is None:
            if arr.kind != "st":
                r = (arr, {})
            else:
                base, over = self.materialise(arr.args[0])
                over = dict(over)
                self.apply(arr.args[1], base, over, arr.root)
                r = (base, over)
            self.mat[k] = r
        return r

    def apply(self, n, base, over, root):
        if n.kind == "loop":
            var, N, ch = n.args
            cnt = self.count(N)
            for i in range(cnt):
                def body():
                    for c in ch:
                        self.apply(c, base, over, root)
                self.with_bound(var, i, body)
            return
        self.budget -= 1
        if self.budget < 0:
            raise Undefined("budget")
        if n.kind == "rec":
            # the guard, index and value may read the array as the recurrence has left it so far
            B = n.args[4]
            self.live[B] = (base, over)
            self.with_bound(B, self.version(), self.store, n, n.args[5] == "acc", base, over)
            return
        self.store(n, n.kind == "acc", base, over)

    def version(self):
        self.ver += 1
        return self.ver

    def store(self, n, acc, base, over):
        g, idx, val = n.args[:3]
        if not self.bdd(g):
            return
        ix = self.toint(self.poly(idx))
        v = self.poly(val)
        if acc:
            old = over.get(ix)
            if old is None:
                old = 0 if base.kind == "zero" else self.init_value(base.root, ix, None)
            else:
                old = old[0]
            v = old + v
        over[ix] = (v, n.args[3] if len(n.args) > 3 else None)


# ------------------------------------------------------------------ sampling
REAL_RANGE = {}         # real symbols that are sampled in a range of their own


def constants(*xs):
    """the larger integer constants a set of terms mentions: sizes at which behaviour may change"""
    out, seen, todo = set(), set(), list(xs)
    while todo:
        x = todo.pop()
        if isinstance(x, (int, Fraction)):
            c = abs(x)
            if c == int(c) and 14 < c < 1 << 20:
                out.add(int(c))
            continue
        if isinstance(x, (tuple, list)):
            todo.extend(x)
            continue
        if id(x) in seen or x is None or isinstance(x, str):
            continue
        seen.add(id(x))
        if isinstance(x, T.Poly):
            for m, c in x.items:
                todo.append(c)
                todo.extend(m)
        elif isinstance(x, T.BDD):
            todo.extend(T.b_vars(x))
        elif hasattr(x, "args"):
            todo.append(x.args)
        if len(seen) > 20000:
            break
    return sorted(out)[:12]


def sample(ctx, syms, rng, roots, spans=None, mode=0, tries=60, consts=()):
    """valuation of the free symbols satisfying the facts of ctx, or None.  syms in dependency order."""
    facts = ctx.facts()
    order = {a: k for k, a in enumerate(syms)}
    by = {}
    for f in facts:
        fs = [a for a in f.fv if a in order]
        if not fs:
            continue
        by.setdefault(max(fs, key=lambda a: order[a]), []).append(f)
    for _ in range(tries):
        it = Interp(rng, roots, mode)
        big = bool(consts) and rng.random() < 0.7
        ok = True
        for a in syms:
            lo, hi = None, None
            it.env[a] = 0
            later = []
            try:
                for f in by.get(a, ()):
                    it.memo.clear()
                    it.env[a] = 0
                    f0 = it.poly(f)
                    it.memo.clear()
                    it.env[a] = 1
                    k = it.poly(f) - f0
                    if k > 0:
                        b = -((f0) // k)
                        lo = b if lo is None else max(lo, b)
                    elif k < 0:
                        b = f0 // (-k)
                        hi = b if hi is None else min(hi, b)
                    elif f0 < 0:
                        ok = False
            except Undefined:
                ok = False
            if not ok:
                break
            span = (spans or {}).get(a.args[0], 6)
            if not a.isint:
                if a.args[0] in REAL_RANGE:
                    l, h = REAL_RANGE[a.args[0]]
                    d = rng.choice([1, 2, 4, 8])
                    it.env[a] = Fraction(rng.randint(l * d, h * d), d)
                else:
                    it.env[a] = Fraction(rng.randint(-40, 40), rng.choice([1, 2, 4]))
                it.memo.clear()
                continue
            ub = hi
            if lo is None and hi is None:
                lo, hi = -span, span
            elif lo is None:
                lo = hi - span
            else:
                h2 = lo + span
                hi = h2 if hi is None else min(hi, h2)
            lo, hi = int(lo), int(hi)
            if lo > hi:
                ok = False
                break
            it.env[a] = rng.randint(lo, hi)
            if big:
                # a size around a constant of the code, or an index near its upper end
                top = None if ub is None else int(ub)
                if rng.random() < 0.5:
                    c = rng.choice(consts) + rng.choice((-1, 0, 1, 2))
                    if c >= lo and (top is None or c <= top):
                        it.env[a] = c
                elif top is not None and rng.random() < 0.5:
                    it.env[a] = rng.randint(max(lo, top - 3), max(lo, top))
            it.memo.clear()
        if not ok:
            continue
        # recheck everything
        for rnd in range(7):
            bad = None
            it.memo.clear()
            it.mat.clear()
            try:
                for f in facts:
                    if it.poly(f) < 0:
                        bad = ("ge", f)
                        break
                if bad is None:
                    for a, pol in ctx.lits.items():
                        if bool(it.atom(a)) != pol:
                            bad = (a.args[0] if pol else {"ge": "lt", "rge": "rlt", "gt": "rle", "eq": "ne"}[a.args[0]], a.args[1])
                            break
            except Undefined:
                break
            if bad is None:
                return it
            if not it.content or not repair(it, bad, rng):
                break
    return None


def repair(it, bad, rng):
    """changes one array cell or one real symbol so that the failing fact holds"""
    kind, e = bad
    try:
        v = it.poly(e)
        cells = list(it.content)
        rng.shuffle(cells)
        cells = cells[:8] + [a for a in it.env if not a.isint]
        eps = Fraction(1, rng.choice([1, 2, 16, 256, 2048]))
        if e.isint:
            want = {"ge": rng.choice([0, 0, 1, 3]), "lt": -rng.choice([1, 1, 2, 5]), "eq": 0, "ne": 1}.get(kind, 0)
        else:
            want = {"ge": 0, "rge": rng.choice([0, eps]), "gt": eps, "lt": -eps, "rlt": -eps, "rle": rng.choice([0, -eps]), "eq": 0, "ne": eps}[kind]
        for k in cells:
            sym = not isinstance(k, tuple)
            store = it.env if sym else it.content
            if not sym:
                r = it.roots.get(k[0])
                ety = r.ety if r is not None and r.ety else ("i", 32)
            else:
                ety = ("f", 32)
            old = store[k]
            store[k] = old + 1
            it.memo.clear()
            it.mat.clear()
            slope = it.poly(e) - v
            store[k] = old
            if slope == 0:
                continue
            d = Fraction(want - v) / slope
            if ety[0] != "f":
                if d.denominator != 1:
                    if kind in ("eq",):
                        continue
                    # beyond the bound rather than before it
                    d = Fraction(d.__ceil__() if d > 0 else d.__floor__())
                d = int(d)
                new = old + d
                if ety[0] in ("u", "s") and ety[1] < 32:
                    lo, hi = (0, (1 << ety[1]) - 1) if ety[0] == "u" else (-(1 << (ety[1] - 1)), (1 << (ety[1] - 1)) - 1)
                    if not lo <= new <= hi:
                        continue
            else:
                new = old + d
            store[k] = new
            it.memo.clear()
            it.mat.clear()
            w = it.poly(e)
            ok = {"ge": w >= 0, "rge": w >= 0, "gt": w > 0, "lt": w < 0, "rlt": w < 0, "rle": w <= 0, "eq": w == 0, "ne": w != 0}[kind]
            if ok:
                return True
            store[k] = old
    except Undefined:
        pass
    return False
