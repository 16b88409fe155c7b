"""Fact contexts and linear entailment (Fourier-Motzkin over monomials, integer tightening)."""
from fractions import Fraction
from math import gcd
from .terms import *
from .terms import _poly
from . import terms as T

STATS = {"queries": 0, "proved": 0, "giveup": 0}


class Ctx:
    """Chained set of facts.  Facts are integer polys >= 0 plus indicator literals."""
    _n = 0

    def __init__(self, parent=None):
        self.parent = parent
        self.own = []          # polys >= 0
        self.lits = {} if parent is None else dict(parent.lits)
        self.nonneg = set() if parent is None else parent.nonneg
        self._own_nn = parent is None
        self.cache = {}
        self._all = None
        self.dead = parent.dead if parent else False
        self._scache = {}
        self._real = None
        self.gcache = {}
        self.loopctx = {}
        self.gb = None

    def child(self):
        return Ctx(self)

    def facts(self):
        if self._all is None:
            base = self.parent.facts() if self.parent else []
            self._all = base + self.own
        return self._all

    def add_ge(self, p):
        c = p.const()
        if c is not None:
            if c < 0:
                self.dead = True
            return
        p = norm_int(p)
        if p is None:
            return
        self.own.append(p)
        a = p.atom()
        if a is None and len(p.items) == 2 and p.isint:
            # atom - c with c >= 0
            q = [(m, c) for m, c in p.items if m]
            k = [c for m, c in p.items if not m]
            if len(q) == 1 and len(q[0][0]) == 1 and q[0][1] == 1 and k and k[0] <= 0:
                a = q[0][0][0]
        if a is not None:
            if not self._own_nn:
                self.nonneg = set(self.nonneg)
                self._own_nn = True
            self.nonneg.add(a)
        self._all = None
        self.cache.clear()
        self._scache.clear()

    def add_eq(self, p):
        self.add_ge(p)
        self.add_ge(-p)

    def add_lit(self, atom, pol):
        if atom.kind != "ind":
            return
        old = self.lits.get(atom)
        if old is not None and old != pol:
            self.dead = True
        self.lits[atom] = pol
        kind, p = atom.args
        self.cache.clear()
        self._scache.clear()
        if kind == "ge":
            self.add_ge(p if pol else -p - 1)
        elif kind == "eq":
            if pol:
                if p.isint:
                    self.add_eq(p)
            elif p.isint:
                # p != 0: useful when p >= 0 known (or <= 0)
                if self.entails(p, light=True):
                    self.add_ge(p - 1)
                elif self.entails(-p, light=True):
                    self.add_ge(-p - 1)
        return

    def add_bdd(self, b):
        if b is FALSE:
            self.dead = True
        for a, pol in b_literals(b):
            self.add_lit(a, pol)

    def with_bdd(self, b):
        if b is TRUE:
            return self
        r = self.gcache.get(b.id)
        if r is not None and r[1] == len(self.own):
            return r[0]
        c = self.child()
        c.gb = b
        c.add_bdd(b)
        self.gcache[b.id] = (c, len(self.own))
        return c

    # ---- queries
    def entails(self, p, light=False):
        """facts |= p >= 0"""
        c = p.const()
        if c is not None:
            return c >= 0 or self.contradiction()
        if self.dead:
            return True
        key = (p, light)
        r = self.cache.get(key)
        if r is None:
            before = STATS.get("depth", 0)
            r = self._entails(p, light)
            if r or STATS.get("depth", 0) == before:
                self.cache[key] = r
        return r

    def is_nonneg_atom(self, a, depth=0):
        if a in self.nonneg:
            return True
        k = a.kind
        if k in ("ind", "U"):
            return True
        if k == "first":
            return True
        if k in ("read", "app") and a.extra:
            return a.extra[0] == "u"
        if k == "app" and a.args[0] in NONNEG_APPS:
            return True
        if k == "sum" and depth < 4:
            v, s0 = T.open_binder(a)
            return self.nonneg_poly(T.Sub(s0).poly(a.args[2]), depth + 1)
        if k == "ftoi":
            return depth < 3 and self.real_nonneg(a.args[2])
        if k == "div":
            return self.nonneg_poly(a.args[0], depth + 1) and self.nonneg_poly(a.args[1], depth + 1)
        if k == "red" and depth < 4:
            v, s0 = T.open_binder(a)
            return (self.nonneg_poly(a.args[3], depth + 1)
                    and self.nonneg_poly(T.Sub(s0).poly(a.args[4]), depth + 1))
        return False

    def nonneg_poly(self, p, depth=0):
        """cheap sufficient test"""
        for m, c in p.items:
            if c < 0:
                return False
            seen = {}
            for a in m:
                seen[a] = seen.get(a, 0) + 1
            for a, n in seen.items():
                if n % 2 and not self.is_nonneg_atom(a, depth):
                    return False
        return True

    def contradiction(self):
        """the facts of this context exclude each other"""
        if self.dead:
            return True
        key = ("contradiction", len(self.own))
        r = self.cache.get(key)
        if r is None:
            facts = self.facts()
            r = any(infeasible(f, facts, self, False) for f in self.own[-3:] if f.isint)
            self.cache[key] = r
            if r:
                self.dead = True
        return r

    def _entails(self, p, light):
        if self.nonneg_poly(p):
            return True
        if not p.isint:
            return False
        p = norm_int(p, tighten=False)
        if p is None:
            return False
        STATS["queries"] += 1
        facts = self.facts()
        goal = norm_int(-p - 1)
        if goal is None:
            return False
        if p in facts:
            return True
        r = infeasible(goal, facts, self, light)
        if r:
            STATS["proved"] += 1
        return r

    def within(self, p, lo, hi):
        """lo <= p <= hi"""
        if self.entails(p - lo) and self.entails(hi - p):
            return True
        a = p.atom()
        if a is not None and a.kind == "div" and lo <= 0 <= hi:
            x, y = a.args
            # truncating division: x <= hi*y + y-1 and x >= lo*y - (y-1) bound the quotient
            return self.entails(y - 1) and self.entails(y * hi + y - 1 - x) and self.entails(x - y * lo + y - 1)
        return False

    def entails_eq(self, p):
        return p is ZERO or (self.entails(p) and self.entails(-p))

    def bdd_value(self, b, depth=0):
        """TRUE/FALSE when decided by the facts, otherwise b simplified."""
        if b.var is None:
            return b
        v = self.lit_value(b.var)
        if v is True:
            return self.bdd_value(b.hi)
        if v is False:
            return self.bdd_value(b.lo)
        if depth > 6:
            return b
        ch = self.child()
        ch.add_lit(b.var, True)
        hi = ch.bdd_value(b.hi, depth + 1)
        cl = self.child()
        cl.add_lit(b.var, False)
        lo = cl.bdd_value(b.lo, depth + 1)
        return b_ite(b_lit(b.var), hi, lo)

    def lit_value(self, atom):
        r = self.lits.get(atom)
        if r is not None:
            return r
        kind, p = atom.args
        if kind == "ge":
            if self.entails(p):
                return True
            if self.entails(-p - 1):
                return False
        elif kind == "eq" and p.isint:
            if self.entails(p - 1) or self.entails(-p - 1):
                return False
            if self.entails(p) and self.entails(-p):
                return True
        elif kind == "eq":
            if self.nonneg_poly(p - 1) or self.nonneg_poly(-p - 1):
                return False
        elif kind == "rge":
            if self.real_nonneg(p):
                return True
            if self.real_positive(-p):
                return False
        elif kind == "gt":
            if self.real_nonneg(-p):
                return False
            if self.real_positive(p):
                return True
        return None

    # ---- real valued facts
    def real_facts(self):
        """(polynomials >= 0, polynomials > 0) from the literals over the reals"""
        if self._real is None or self._real[0] != len(self.lits):
            ge, gt = [], []
            for a, pol in self.lits.items():
                kind, p = a.args
                if kind == "rge":
                    (ge if pol else gt).append(p if pol else -p)
                elif kind == "gt":
                    (gt if pol else ge).append(p if pol else -p)
                elif kind == "eq" and not p.isint and pol:
                    ge += [p, -p]
            self._real = (len(self.lits), ge, gt)
        return self._real[1:]

    def _rest_nonneg(self, d):
        if self.nonneg_poly(d):
            return True
        k = 1
        for m, c in d.items:
            k = k * Fraction(c).denominator // gcd(k, Fraction(c).denominator)
        d = d * k
        return d.isint and self.entails(d)

    def real_nonneg(self, p):
        if self.nonneg_poly(p):
            return True
        ge, gt = self.real_facts()
        ok = {r.atom() for r in ge + gt} - {None}
        if ok and all(c >= 0 and all(m.count(a) % 2 == 0 or a in ok or self.is_nonneg_atom(a) for a in m) for m, c in p.items):
            return True
        return any(self._rest_nonneg(p - r) for r in (ge + gt)[:12])

    def real_positive(self, p):
        ge, gt = self.real_facts()
        c0 = sum((c for m, c in p.items if not m), Fraction(0))
        if c0 > 0 and self.nonneg_poly(p):
            return True
        return any(self._rest_nonneg(p - r) for r in gt[:12]) or any((p - r).const() is not None and (p - r).const() > 0 for r in ge[:12]) or \
            any(self._rest_nonneg(p - r - 1) for r in ge[:12])

    # ---- simplification
    def simp(self, p):
        """rewrite p using the facts: strip U/S, decide indicators, products with known zero"""
        r = self._scache.get(p)
        if r is not None:
            return r
        r = p
        for _ in range(6):
            q = self._simp1(r)
            if q is r:
                break
            r = q
        self._scache[p] = r
        return r

    def _simp1(self, p):
        changed = False
        acc = ZERO
        keep = {}
        for m, c in p.items:
            t = None
            for k, a in enumerate(m):
                q = self.simp_atom(a)
                if q is not None:
                    rest = _poly({m[:k] + m[k + 1:]: c})
                    t = rest * q
                    break
            if t is None:
                keep[m] = c
            else:
                changed = True
                acc = acc + t
        if not changed:
            return inv_reduce(p)
        return acc + _poly(keep)

    def simp_atom(self, a):
        """replacement poly or None"""
        k = a.kind
        if k in ("sym", "bv", "app"):
            if k == "app":
                A = [self.simp(x) for x in a.args[1:]]
                if tuple(A) != a.args[1:]:
                    return P(mk("app", a.args[0], *A, isint=a.isint))
            return None
        if k == "ind":
            v = self.lit_value(a)
            if v is not None:
                return ONE if v else ZERO
            q = self.simp(a.args[1])
            if a.args[0] == "eq":
                q = self._eq_mod(q)
            if q is not a.args[1]:
                return b_poly({"ge": ge0, "eq": eq0, "gt": gt0r,
                               "rge": lambda z: b_not(gt0r(-z))}[a.args[0]](q))
            return None
        if k == "U":
            n, t = a.args
            t2 = self.simp(t)
            f = t2.atom()
            if n >= 32 and f is not None and f.kind == "ftoi" and self.real_nonneg(f.args[2]):
                return t2           # a conversion out of range has no defined result
            if n >= 16 or True:
                hi = (1 << n) - 1
                if n >= 32:
                    if self.entails(t2):
                        return t2
                elif self.within(t2, 0, hi):
                    return t2
            sp = self._gate_split(U, n, t2)
            if sp is not None:
                return sp
            return U(n, t2) if t2 is not t else None
        if k == "S":
            n, t = a.args
            t2 = self.simp(t)
            if n >= 32:
                return t2
            if self.within(t2, -(1 << (n - 1)), (1 << (n - 1)) - 1):
                return t2
            sp = self._gate_split(S, n, t2)
            if sp is not None:
                return sp
            return S(n, t2) if t2 is not t else None
        if k == "div":
            x, y = self.simp(a.args[0]), self.simp(a.args[1])
            if x is not a.args[0] or y is not a.args[1]:
                return div(x, y)
            return self._div_split(x, y)
        if k == "inv":
            x = self.simp(a.args[0])
            return inv(x) if x is not a.args[0] else None
        if k == "ftoi":
            x = self.simp(a.args[2])
            c = sum((k_ for m, k_ in x.items if not m), Fraction(0))
            if c.denominator != 1:          # int(q + c) for an integer q and 0 < c < 1: q if q >= 0
                lo = c.numerator // c.denominator
                q = x - c + lo
                if q.isint and all(Fraction(k_).denominator == 1 for m, k_ in q.items) and self.entails(q):
                    return q
            return ftoi(a.args[0], a.args[1], x) if x is not a.args[2] else None
        if k == "read":
            from . import arrays
            idx = self.simp(a.args[1])
            r = arrays.resolve_read(a.args[0], idx, a.extra, a.isint, self)
            if r is not None and r is not P(a):
                return r
            return None
        if k == "sum":
            return self._simp_binder(a)
        if k in ("red", "first", "fold"):
            return self._simp_binder(a)
        return None

    def _eq_mod(self, q):
        """U(n,x) == R with 0 <= R < 2^n and |x-R| < 2^n is x == R"""
        for m, c in q.items:
            if len(m) == 1 and m[0].kind == "U" and c in (1, -1):
                n, x = m[0].args
                R = (q - P(m[0]) * c) * (-c)
                if m[0] in R.fv:
                    continue
                if self.within(R, 0, (1 << n) - 1) and self.within(x - R, 1 - (1 << n), (1 << n) - 1):
                    return x - R
        return q

    def _gate_split(self, f, n, t, depth=0):
        inds = [a for a in t.atoms() if a.kind == "ind"]
        if not inds or len(inds) > 6:
            return None
        a = min(inds, key=lambda a: a.id)
        hi, lo = restrict(t, a, 1), restrict(t, a, 0)
        ch = self.with_bdd(b_lit(a, True))
        cl = self.with_bdd(b_lit(a, False))
        return ite(b_lit(a), ch.simp(f(n, hi)), cl.simp(f(n, lo)))

    def _div_split(self, x, y):
        """div(q*y + r, y) with 0<=r<y  ->  q ;  also constant-bounded small quotients"""
        cy = y.const()
        if cy is not None and cy > 1:
            d, r = {}, {}
            for m, c in x.items:
                if Fraction(c).denominator != 1:
                    return None
                q0, r0 = divmod(int(c), int(cy))
                if q0:
                    d[m] = q0
                if r0:
                    r[m] = r0
            if d:
                q, rr = T._poly(d), T._poly(r)
                if rr.const() is not None and self.entails(x):
                    return q
        # split monomials divisible by y
        if len(y.items) == 1 and y.const() is None:
            my, cy = y.items[0]
            d, r = {}, {}
            for m, c in x.items:
                l = list(m)
                ok = (Fraction(c) / cy).denominator == 1
                for z in my:
                    if z in l:
                        l.remove(z)
                    else:
                        ok = False
                        break
                if ok:
                    d[tuple(l)] = int(Fraction(c) / cy)
                else:
                    r[m] = c
            if d:
                q, rr = T._poly(d), T._poly(r)
                if self.entails(rr) and self.entails(y - 1 - rr) and self.entails(x):
                    return q
                for k in (-1, 1):
                    if self.entails(rr - k * y) and self.entails(y - 1 - rr + k * y) and self.entails(x):
                        return q + k
        if self.entails(x) and self.entails(y - 1 - x):
            return ZERO
        if self.entails(x - y) and self.entails(2 * y - 1 - x):
            return ONE
        return None

    def _simp_binder(self, a):
        k = a.kind
        if k == "sum":
            N = self.simp(a.args[1])
            v, s0 = T.open_binder(a)
            body = T.Sub(s0).poly(a.args[2])
            c = self.child()
            c.add_ge(P(v))
            c.add_ge(N - 1 - P(v))
            if c.dead or c.entails(P(-1)) :
                return ZERO
            b2 = c.simp(body)
            r = bound_sum(v, N, b2, self)
            if r is None:
                r = T.ssum(v, N, b2)
            return r if r is not P(a) else None
        if k == "red":
            N = self.simp(a.args[2])
            init = self.simp(a.args[3])
            v, s0 = T.open_binder(a)
            body = T.Sub(s0).poly(a.args[4])
            c = self.child()
            c.add_ge(P(v))
            c.add_ge(N - 1 - P(v))
            r = T.red(a.args[1], v, N, init, c.simp(body))
            return r if r is not P(a) else None
        if k == "first":
            N = self.simp(a.args[1])
            v, s0 = T.open_binder(a)
            body = T.Sub(s0).poly(a.args[2])
            c = self.child()
            c.add_ge(P(v))
            c.add_ge(N - 1 - P(v))
            r = T.first(v, N, c.simp(body))
            return r if r is not P(a) else None
        if k == "fold":
            N = self.simp(a.args[1])
            v, s0 = T.open_binder(a)
            nx = tuple(T.Sub(s0).poly(x) for x in a.args[5])
            c = self.child()
            c.add_ge(P(v))
            c.add_ge(N - 1 - P(v))
            nx2 = tuple(c.simp(x) for x in nx)
            inits = tuple(self.simp(x) for x in a.args[4])
            r = T.fold(v, N, a.args[2], a.args[3], inits, nx2)
            return r if r is not P(a) else None
        return None


NONNEG_APPS = {"exp", "fabs"}


def bound_sum(v, N, body, ctx):
    """Sum_{v<N} [a + s*v >= 0] * rest  with s=+-1  ->  sums over the narrowed range"""
    out = ZERO
    hit = False
    rest = {}
    for m, c in body.items:
        lit = None
        for a in m:
            if a.kind == "ind" and a.args[0] in ("ge", "eq") and v in a.args[1].fv:
                q = a.args[1]
                cv = lin_coef(q, v)
                if cv in (1, -1):
                    lit = (a, q, cv)
                    break
        if lit is None:
            rest[m] = c
            continue
        a, q, cv = lit
        m2 = tuple(x for x in m if x is not a)
        b2 = _poly({m2: c})
        base = q - cv * P(v)
        if a.args[0] == "eq":
            # v = -base/cv
            val = -base * cv
            cond = b_and(ge0(val), ge0(N - 1 - val))
            cond = ctx.bdd_value(cond)
            out = out + b_poly(cond) * T.subst(b2, {v: val})
            hit = True
            continue
        if cv == 1:
            lo = -base  # v >= lo
            lo2 = ctx.clampmax0(lo)
            if lo2 is None:
                rest[m] = c
                continue
            n2 = ctx.clamp_pos(N - lo2)
            if n2 is None:
                rest[m] = c
                continue
            out = out + T.ssum(v, n2, T.subst(b2, {v: P(v) + lo2}))
        else:
            hi = base + 1  # v < hi
            n2 = None
            if ctx.entails(N - hi):
                n2 = ctx.clamp_pos(hi)
            elif ctx.entails(hi - N):
                n2 = N
            if n2 is None:
                rest[m] = c
                continue
            out = out + T.ssum(v, n2, b2)
        hit = True
    if not hit:
        return None
    return out + T.ssum(v, N, _poly(rest))


def lin_coef(p, v):
    """constant coefficient of atom v when p is linear in v and v occurs nowhere else; else None"""
    c = None
    for m, k in p.items:
        if m == (v,):
            c = k
        else:
            for a in m:
                if v in a.fv:
                    return None
    return c


def inv_reduce(p):
    """cancel q against inv(q): rewrite inv(q)*lead(q) -> (1 - inv(q)*rest(q))/lc"""
    for _ in range(12):
        hit = None
        for m, c in p.items:
            if len(m) < 2:
                continue
            for a in m:
                if a.kind == "inv":
                    q = a.args[0]
                    if len(q.items) < 2 or len(q.items) > 12:
                        continue
                    lm, lc = max(q.items, key=lambda t: (len(t[0]), [x.id for x in t[0]]))
                    l = list(m)
                    l.remove(a)
                    ok = bool(lm)
                    for x in lm:
                        if x in l:
                            l.remove(x)
                        else:
                            ok = False
                            break
                    if ok:
                        hit = (m, c, a, q, lm, lc, l)
                        break
            if hit:
                break
        if hit is None:
            return p
        m, c, a, q, lm, lc, l = hit
        rest = q - _poly({lm: lc})
        d = dict(p.items)
        del d[m]
        k = Fraction(c) / lc
        p = _poly(d) + T._poly({tuple(l): T._norm(k)}) * (ONE - P(a) * rest)
    return p


def lin_coef_poly(p, v):
    """polynomial coefficient of v (p = coef*v + rest), None when v occurs non linearly"""
    d, r = {}, {}
    for m, k in p.items:
        n = m.count(v)
        if n == 0:
            for a in m:
                if v in a.fv:
                    return None
            r[m] = k
        elif n == 1:
            l = list(m)
            l.remove(v)
            for a in l:
                if v in a.fv:
                    return None
            d[tuple(l)] = k
        else:
            return None
    return _poly(d), _poly(r)


def _clampmax0(self, p):
    if self.entails(p):
        return p
    if self.entails(-p):
        return ZERO
    return None


def _clamp_pos(self, p):
    if self.entails(p):
        return p
    if self.entails(-p):
        return ZERO
    return None


Ctx.clampmax0 = _clampmax0
Ctx.clamp_pos = _clamp_pos


def norm_int(p, tighten=True):
    """integer coefficients, divided by gcd (with floor of the constant)"""
    if not p.isint:
        den = 1
        for m, c in p.items:
            if isinstance(c, Fraction):
                den = den * c.denominator // gcd(den, c.denominator)
            for a in m:
                if not a.isint:
                    return None
        p = p * den
    if tighten:
        g = 0
        for m, c in p.items:
            if m:
                g = gcd(g, int(c))
        if g > 1:
            d = {m: (c // g) for m, c in p.items}
            p = _poly(d)
    return p


def implicit_facts(monos, ctx, seen):
    """facts attached to atoms occurring in monos"""
    out = []
    for m in monos:
        for a in m:
            if a in seen:
                continue
            seen.add(a)
            k = a.kind
            pa = P(a)
            if k == "U":
                out.append(pa)
                out.append((1 << a.args[0]) - 1 - pa)
            elif k == "S" and a.args[0] < 32:
                out.append(pa + (1 << (a.args[0] - 1)))
                out.append((1 << (a.args[0] - 1)) - 1 - pa)
            elif k == "ind":
                out.append(pa)
                out.append(1 - pa)
            elif k in ("read", "app") and a.extra and a.isint and a.extra[0] != "i":
                s, n = a.extra[0], a.extra[1]
                if s == "u":
                    out.append(pa)
                    if n < 32:
                        out.append((1 << n) - 1 - pa)
                elif n < 32:
                    out.append(pa + (1 << (n - 1)))
                    out.append((1 << (n - 1)) - 1 - pa)
            elif k == "div":
                x, y = a.args
                if ctx.nonneg_poly(x) or ctx.entails(x):
                    if ctx.entails(y - 1):
                        out.append(pa)
                        out.append(x - y * pa)
                        out.append(y * pa + y - 1 - x)
                        # quotient positive when x>=y
                        if ctx.entails(x - y):
                            out.append(pa - 1)
                        out.append(x - pa)
                elif ctx.entails(-x) and ctx.entails(y - 1):
                    out.append(-pa)
                    out.append(y * pa - x)
                    out.append(x - y * pa + y - 1)
                elif ctx.entails(y - 1):
                    out.append(x - y * pa + y - 1)
                    out.append(y * pa + y - 1 - x)
            elif k == "first":
                out.append(pa)
                out.append(a.args[1] - pa)
            elif k == "sum":
                if ctx.is_nonneg_atom(a):
                    out.append(pa)
                b = a.args[2].atom()
                if b is not None and b.kind in ("read", "app") and b.extra and b.isint and b.extra[0] in "us" and ctx.entails(a.args[1]):
                    s, n = b.extra[0], b.extra[1]
                    lo, hi = (0, (1 << n) - 1) if s == "u" else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
                    out.append(a.args[1] * hi - pa)
                    out.append(pa - a.args[1] * lo)
            elif k == "red":
                h, op, N, init, body = a.args
                if op == "max":
                    out.append(pa - init)
                else:
                    out.append(init - pa)
    return out


_infeasible_depth = [0]


def infeasible(goal, facts, ctx, light):
    if _infeasible_depth[0] > 4:
        STATS["depth"] = STATS.get("depth", 0) + 1
        return False
    _infeasible_depth[0] += 1
    try:
        return _infeasible(goal, facts, ctx, light)
    finally:
        _infeasible_depth[0] -= 1


def _infeasible(goal, facts, ctx, light):
    # collect relevant constraints
    rel = [goal]
    monos = set(m for m, _ in goal.items if m)
    pool = list(facts)
    seen_atoms = set()
    extra = [] if light else implicit_facts(monos, ctx, seen_atoms)
    pool = pool + extra
    used = set()
    for rnd in range(5 if not light else 3):
        new = []
        for i, f in enumerate(pool):
            if i in used:
                continue
            fm = [m for m, _ in f.items if m]
            if any(m in monos for m in fm):
                used.add(i)
                new.append(f)
        if not new:
            break
        rel.extend(new)
        nm = set()
        for f in new:
            for m, _ in f.items:
                if m and m not in monos:
                    nm.add(m)
        monos |= nm
        if not light and nm:
            pool.extend(implicit_facts(nm, ctx, seen_atoms))
        if len(rel) > 120:
            break
    # nonlinear monomials: sign facts and first level products
    nl = [m for m in monos if len(m) > 1]
    if nl and not light:
        lin = [f for f in rel[1:] if all(len(m) <= 1 for m, _ in f.items)] + \
              [f for f in facts if all(len(m) <= 1 for m, _ in f.items)]
        lin = list(dict.fromkeys(lin + ([goal] if all(len(m) <= 1 for m, _ in goal.items) else [])))
        deg2 = [f for f in dict.fromkeys(rel[1:] + pool) if any(len(m) > 1 for m, _ in f.items)]
        prods = []
        for m in nl:
            if all(ctx.is_nonneg_atom(a) for a in m):
                prods.append(_poly({m: 1}))
            for k, b in enumerate(m):
                if not ctx.is_nonneg_atom(b):
                    continue
                restm = m[:k] + m[k + 1:]
                for f in (lin if len(restm) < 2 else lin + deg2):
                    if any(mm == restm for mm, _ in f.items):
                        prods.append(f * P(b))
            if len(m) == 3 and all(ctx.is_nonneg_atom(a) for a in m):
                for k in range(3):
                    for f in lin:
                        if any(mm == (m[k],) for mm, _ in f.items):
                            prods.append(f * _poly({m[:k] + m[k + 1:]: 1}))
        for q in prods[:60]:
            if q not in rel:
                rel.append(q)
        # linear facts on the newly introduced monomials
        ms = set()
        for q in prods:
            for m, _ in q.items:
                if m and m not in monos:
                    ms.add(m)
        for m in ms:
            if len(m) > 1 and all(ctx.is_nonneg_atom(a) for a in m):
                rel.append(_poly({m: 1}))
        for f in facts:
            if f not in rel and any(m in ms for m, _ in f.items):
                rel.append(f)
    return fm_infeasible(rel)


_FM = {}


def fm_infeasible(cons, limit=500):
    k = frozenset(cons)
    r = _FM.get(k)
    if r is None:
        if len(_FM) > 200000:
            _FM.clear()
        r = _FM[k] = fm_infeasible_(cons, limit)
    return r


def one_sided(cs):
    """drop constraints with a variable of one sign only (they cannot take part in a contradiction);
    -> (constraints, occurrence counts)"""
    while True:
        pos, neg = {}, {}
        for d in cs:
            for m, c in d.items():
                if m:
                    if c > 0:
                        pos[m] = pos.get(m, 0) + 1
                    else:
                        neg[m] = neg.get(m, 0) + 1
        lone = set(m for m in pos if m not in neg)
        lone.update(m for m in neg if m not in pos)
        if not lone:
            return cs, pos, neg
        cs = [d for d in cs if lone.isdisjoint(d)]


def fm_infeasible_(cons, limit=500):
    # to dict form {monomial number: int}, constant under 0
    num = {(): 0}
    cs = []
    for p in cons:
        q = norm_int(p)
        if q is None:
            continue
        d = {}
        for m, c in q.items:
            j = num.get(m)
            if j is None:
                j = num[m] = len(num)
            d[j] = int(c)
        cs.append(d)
    cs = dedup(cs)
    cs, pos, neg = one_sided(cs)
    # substitute equalities
    changed = True
    it = 0
    while changed and it < 30:
        changed = False
        it += 1
        index = {}
        for i, d in enumerate(cs):
            index[frozenset(d.items())] = i
        for i, d in enumerate(cs):
            j = index.get(frozenset((m, -c) for m, c in d.items()))
            if j is not None and j != i:
                # equality d == 0; find unit coefficient variable
                piv = None
                for m, c in d.items():
                    if m and (c == 1 or c == -1):
                        piv = m
                        break
                if piv is None:
                    continue
                cp = d[piv]
                new = []
                for k2, e in enumerate(cs):
                    if k2 == i or k2 == j:
                        continue
                    ce = e.get(piv, 0)
                    if ce:
                        e2 = dict(e)
                        f = -ce * cp  # since cp = +-1: subtract ce/cp * d
                        for m, c in d.items():
                            v = e2.get(m, 0) + f * c
                            if v:
                                e2[m] = v
                            else:
                                e2.pop(m, None)
                        e2 = tight(e2)
                        if e2 is False:
                            return True
                        if e2 is not None:
                            new.append(e2)
                    else:
                        new.append(e)
                cs = dedup(new)
                changed = True
                break
    # FM
    steps = 0
    while True:
        cs, cpos, cneg = one_sided(cs)
        if not cs:
            return False
        if not cpos:
            return any(d.get(0, 0) < 0 for d in cs)
        m = min(cpos, key=lambda v: cpos[v] * cneg[v] - cpos[v] - cneg[v])
        pos, neg, rest = [], [], []
        for d in cs:
            c = d.get(m, 0)
            (pos if c > 0 else neg if c < 0 else rest).append(d)
        if len(pos) * len(neg) + len(rest) > limit:
            STATS["giveup"] += 1
            return False
        for a in pos:
            ca = a[m]
            for b in neg:
                cb = -b[m]
                g = gcd(ca, cb)
                ka, kb = cb // g, ca // g
                e = {k2: c * ka for k2, c in a.items()} if ka != 1 else dict(a)
                for k2, c in b.items():
                    v = e.get(k2, 0) + c * kb
                    if v:
                        e[k2] = v
                    else:
                        e.pop(k2, None)
                e.pop(m, None)
                e = tight(e)
                if e is False:
                    return True
                if e is not None:
                    rest.append(e)
        cs = dedup(rest)
        steps += 1
        if steps > 80:
            return False


def tight(e):
    """None: trivially true; False: contradiction"""
    g = 0
    for m, c in e.items():
        if m:
            g = gcd(g, c)
            if g == 1:
                return e
    k = e.get(0, 0)
    if g == 0:
        return False if k < 0 else None
    e = {m: (c // g) for m, c in e.items()}
    if e.get(0, 1) == 0:
        e.pop(0, None)
    return e


def dedup(cs):
    """keep the strongest constant per linear form"""
    best = {}
    for d in cs:
        c0 = d.get(0)
        if c0 is None:
            k = frozenset(d.items())
            c0 = 0
        else:
            k = frozenset((m, c) for m, c in d.items() if m)
        o = best.get(k)
        if o is None or c0 < o.get(0, 0):
            best[k] = d
    return list(best.values())
