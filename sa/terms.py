"""Value domain of the analyser.

Every value (integer, real, pointer, boolean) is a polynomial with rational
coefficients over hash-consed *atoms*.  Atoms are

  sym(name)              free symbol (a field of a parameter, a buffer base, a loop index)
  bv(h)                  canonically numbered bound variable
  ind(kind, p)           idempotent indicator  [p>=0] / [p==0] / [p>0 (real)]
  U(n,t) / S(n,t)        the unsigned / signed n-bit representative of t
  div/rem(a,b)           C integer division
  inv(b)                 1/b over the reals
  ftoi(n,s,t)            C float to integer conversion
  sum(N, body)           sum_{bv in [0,N)} body
  red(op,N,init,body)    min/max reduction
  fold(...)              a general scalar recurrence
  read(array, idx)       element of an array value
  app(f, args)           uninterpreted pure function

Booleans used as path guards are BDDs over the indicator atoms.
Integer + - * are exact ring operations, so a polynomial is right modulo 2^n;
wherever the machine observes a value (compare, extend, divide, index) a U/S
node is put in unless the representative is provable.
"""
import itertools
from fractions import Fraction

_atoms = {}
_atom_list = []


class Atom:
    __slots__ = ("kind", "args", "id", "fv", "height", "isint", "extra")

    def __repr__(self):
        return show_atom(self)


def _args_fv(args):
    fv = frozenset()
    h = 0
    for a in args:
        if isinstance(a, (Poly, Atom, Arr)):
            if a.fv:
                fv = fv | a.fv if fv else a.fv
            if a.height > h:
                h = a.height
        elif isinstance(a, tuple):
            f2, h2 = _args_fv(a)
            if f2:
                fv = fv | f2
            if h2 > h:
                h = h2
    return fv, h


def mk(kind, *args, isint=True):
    key = (kind, args)
    a = _atoms.get(key)
    if a is not None:
        return a
    a = Atom()
    a.kind = kind
    a.args = args
    a.id = len(_atom_list)
    a.isint = isint
    a.extra = None
    fv, h = _args_fv(args)
    if kind in ("sym", "bv"):
        fv = frozenset((a,))
        if kind == "bv":
            h = args[0] + 1
    elif kind in BINDERS:
        # last poly argument(s) contain bv(height)
        bv = mk("bv", args[0])
        fv = fv - {bv}
        h = max(h, args[0] + 1)
    a.fv = fv
    a.height = h
    _atoms[key] = a
    _atom_list.append(a)
    return a


BINDERS = {"sum", "red", "fold", "first"}

_polys = {}


class Poly:
    """Immutable, hash-consed.  items: tuple of (mono, coef); mono: tuple of atoms sorted by id."""
    __slots__ = ("items", "fv", "height", "_h", "isint")

    def __add__(self, o):
        o = P(o)
        if not o.items:
            return self
        if not self.items:
            return o
        d = dict(self.items)
        for m, c in o.items:
            c2 = d.get(m, 0) + c
            if c2 == 0:
                d.pop(m, None)
            else:
                d[m] = c2
        return _poly(d)

    __radd__ = __add__

    def __neg__(self):
        return _poly({m: -c for m, c in self.items})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        o = P(o)
        if not self.items or not o.items:
            return ZERO
        if len(o.items) == 1 and o.items[0][0] == ():
            k = o.items[0][1]
            if k == 1:
                return self
            return _poly({m: c * k for m, c in self.items})
        d = {}
        for m1, c1 in self.items:
            for m2, c2 in o.items:
                m = _mmul(m1, m2)
                if m is None:
                    continue
                c = d.get(m, 0) + c1 * c2
                if c == 0:
                    d.pop(m, None)
                else:
                    d[m] = c
        return _poly(d)

    __rmul__ = __mul__

    def __repr__(self):
        return show(self)

    def const(self):
        if not self.items:
            return 0
        if len(self.items) == 1 and self.items[0][0] == ():
            return self.items[0][1]
        return None

    def atom(self):
        """The atom when this is exactly one atom, else None."""
        if len(self.items) == 1:
            m, c = self.items[0]
            if c == 1 and len(m) == 1:
                return m[0]
        return None

    def atoms(self):
        s = set()
        for m, _ in self.items:
            s.update(m)
        return s


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    l = list(m1)
    for a in m2:
        if a.kind == "ind":
            if a in l:
                continue
            if a.args[0] == "eq":
                # [p==0]*[p+c==0] = 0
                for b in l:
                    if b.kind == "ind" and b.args[0] == "eq":
                        dc = (b.args[1] - a.args[1]).const()
                        ds = (b.args[1] + a.args[1]).const()
                        if (dc is not None and dc != 0) or (ds is not None and ds != 0 ):
                            return None
        l.append(a)
    l.sort(key=lambda a: a.id)
    return tuple(l)


def _norm(c):
    if type(c) is int:
        return c
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


_frozen = {}


def _poly(d):
    k = frozenset(d.items())
    p = _frozen.get(k)
    if p is None:
        p = _frozen[k] = _poly_(d)
    return p


def _poly_(d):
    items = tuple(sorted(((m, _norm(c)) for m, c in d.items() if c != 0),
                         key=lambda mc: tuple(a.id for a in mc[0])))
    p = _polys.get(items)
    if p is not None:
        return p
    p = Poly()
    p.items = items
    fv = frozenset()
    h = 0
    isint = True
    for m, c in items:
        if isinstance(c, Fraction):
            isint = False
        for a in m:
            if a.fv:
                fv = fv | a.fv
            if a.height > h:
                h = a.height
            if not a.isint:
                isint = False
    p.fv = fv
    p.height = h
    p.isint = isint
    _polys[items] = p
    return p


def P(x):
    if type(x) is Poly:
        return x
    p = _pcache.get(x)
    if p is not None:
        return p
    if isinstance(x, Atom):
        p = _poly({(x,): 1})
    elif x == 0:
        p = ZERO
    else:
        p = _poly({(): int(x) if isinstance(x, bool) else x})
    _pcache[x] = p
    return p


_pcache = {}


ZERO = _poly({})
ONE = _poly({(): 1})


def sym(name, isint=True):
    return P(mk("sym", name, isint=isint))


_fresh = [0]


def fresh(prefix, isint=True):
    _fresh[0] += 1
    return mk("sym", "%s#%d" % (prefix, _fresh[0]), isint=isint)


# ---------------------------------------------------------------- booleans
class BDD:
    __slots__ = ("var", "hi", "lo", "id")

    def __repr__(self):
        return show_bdd(self)


TRUE = BDD()
TRUE.var = None; TRUE.hi = TRUE.lo = None; TRUE.id = 1
FALSE = BDD()
FALSE.var = None; FALSE.hi = FALSE.lo = None; FALSE.id = 0
_bdds = {}


def _node(v, hi, lo):
    if hi is lo:
        return hi
    k = (v, hi.id, lo.id)
    n = _bdds.get(k)
    if n is None:
        n = BDD()
        n.var, n.hi, n.lo, n.id = v, hi, lo, len(_bdds) + 2
        _bdds[k] = n
    return n


_ite_cache = {}


def b_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c.id, a.id, b.id)
    r = _ite_cache.get(k)
    if r is not None:
        return r
    v = min((x.var for x in (c, a, b) if x.var is not None), key=lambda t: t.id)

    def co(x, val):
        if x.var is v:
            return x.hi if val else x.lo
        return x
    r = _node(v, b_ite(co(c, 1), co(a, 1), co(b, 1)), b_ite(co(c, 0), co(a, 0), co(b, 0)))
    _ite_cache[k] = r
    return r


def b_and(a, b):
    return b_ite(a, b, FALSE)


def b_or(a, b):
    return b_ite(a, TRUE, b)


def b_not(a):
    return b_ite(a, FALSE, TRUE)


def b_vars(b):
    seen = set()
    out = []
    st = [b]
    while st:
        n = st.pop()
        if n.var is None or n.id in seen:
            continue
        seen.add(n.id)
        if n.var not in out:
            out.append(n.var)
        st.append(n.hi)
        st.append(n.lo)
    return out


def b_restrict(b, v, val):
    if b.var is None or b.var.id > v.id:
        return b
    if b.var is v:
        return b.hi if val else b.lo
    return _node(b.var, b_restrict(b.hi, v, val), b_restrict(b.lo, v, val))


_lit_cache = {}


def b_literals(b):
    """(atom, polarity) pairs implied by the guard."""
    r = _lit_cache.get(b.id)
    if r is not None:
        return r
    out = []
    if b is not FALSE:
        for v in b_vars(b):
            if b_restrict(b, v, 0) is FALSE:
                out.append((v, True))
            elif b_restrict(b, v, 1) is FALSE:
                out.append((v, False))
    r = tuple(out)
    _lit_cache[b.id] = r
    return r


def b_lit(atom, pol=True):
    return _node(atom, TRUE, FALSE) if pol else _node(atom, FALSE, TRUE)


_b2p = {}


def b_poly(b):
    """0/1 polynomial of a BDD."""
    if b is TRUE:
        return ONE
    if b is FALSE:
        return ZERO
    r = _b2p.get(b.id)
    if r is None:
        x = P(b.var)
        hi, lo = b_poly(b.hi), b_poly(b.lo)
        r = lo + x * (hi - lo)
        _b2p[b.id] = r
    return r


def poly_bdd(p):
    """BDD of a 0/1 polynomial over indicators (p known to be boolean), else None."""
    c = p.const()
    if c is not None:
        return TRUE if c == 1 else FALSE if c == 0 else None
    v = None
    for a in p.atoms():
        if a.kind == "ind" and (v is None or a.id < v.id):
            v = a
    if v is None:
        return None
    hi = poly_bdd(restrict(p, v, 1))
    if hi is None:
        return None
    lo = poly_bdd(restrict(p, v, 0))
    if lo is None:
        return None
    return _node(v, hi, lo) if hi is not lo else hi


def restrict(p, atom, val):
    """p with the indicator atom (top level only) set to val."""
    d = {}
    for m, c in p.items:
        if atom in m:
            if not val:
                continue
            m = tuple(a for a in m if a is not atom)
        c2 = d.get(m, 0) + c
        if c2 == 0:
            d.pop(m, None)
        else:
            d[m] = c2
    return _poly(d)


# ---------------------------------------------------------------- constructors
def _content(p):
    """divide integer polynomial by the gcd of the non-constant coefficients (for comparisons)."""
    from math import gcd
    g = 0
    den = 1
    for m, c in p.items:
        if isinstance(c, Fraction):
            den = den * c.denominator // gcd(den, c.denominator)
    if den != 1:
        p = p * den
    for m, c in p.items:
        if m:
            g = gcd(g, int(c))
    return p, g


def ge0(p):
    """BDD of (integer) p >= 0."""
    c = p.const()
    if c is not None:
        return TRUE if c >= 0 else FALSE
    if not p.isint:
        return b_not(gt0r(-p))
    p, g = _content(p)
    if g > 1:
        d = {m: c for m, c in p.items}
        k = d.pop((), 0)
        q = _poly({m: c // g for m, c in d.items()})
        p = q + (k // g)
    q = -p - 1
    # canonical polarity: by sign of leading non-constant coefficient
    if _lead(p) > 0:
        return b_lit(mk("ind", "ge", p), True)
    return b_lit(mk("ind", "ge", q), False)


def _lead(p):
    for m, c in p.items:
        if m:
            return c
    return 0


def gt0r(p):
    c = p.const()
    if c is not None:
        return TRUE if c > 0 else FALSE
    p, g = _content(p)
    if g > 1:
        p = p * Fraction(1, g)
    # keep real atoms oriented: gt with leading > 0, otherwise not(ge)
    if _lead(p) > 0:
        return b_lit(mk("ind", "gt", p), True)
    return b_lit(mk("ind", "rge", -p), False)


def eq0(p):
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    b = None
    if p.isint:
        p, g = _content(p)
        if g > 1:
            k = dict(p.items).get((), 0)
            if k % g:
                return FALSE
            p = _poly({m: c // g for m, c in p.items})
    if _lead(p) < 0:
        p = -p
    if p.isint:
        # an indicator itself compared with 0/1
        b = poly_bdd(p)
        if b is not None:
            return b_not(b)
        b = poly_bdd(1 - p)
        if b is not None and b is not None and is_bool(p + 0):
            return b_not(b)
    return b_lit(mk("ind", "eq", p))


def is_bool(p):
    return poly_bdd(p) is not None


def lt(a, b):
    return ge0(b - a - 1)


def le(a, b):
    return ge0(b - a)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return b + b_poly(c) * (a - b)


def U(n, t):
    c = t.const()
    if c is not None:
        return P(int(c) % (1 << n))
    a = t.atom()
    if a is not None:
        if a.kind == "ind":
            return t
        if a.kind == "U" and a.args[0] <= n:
            return t
        if a.kind in ("U", "S") and a.args[0] > n:
            return U(n, a.args[1])
        if a.kind == "S" and a.args[0] == n:
            return U(n, a.args[1])
        if a.kind in ("read", "app") and a.extra and a.extra[0] == "u" and a.extra[1] <= n:
            return t
    if is_bool(t):
        return t
    return P(mk("U", n, _strip_ring(n, t)))


def S(n, t):
    c = t.const()
    if c is not None:
        c = int(c) % (1 << n)
        return P(c - (1 << n) if c >> (n - 1) else c)
    a = t.atom()
    if a is not None:
        if a.kind == "ind" and n > 1:
            return t
        if a.kind == "U" and a.args[0] < n:
            return t
        if a.kind == "S" and a.args[0] <= n:
            return t
        if a.kind in ("U", "S") and a.args[0] >= n:
            return S(n, a.args[1])
        if a.kind in ("read", "app") and a.extra and a.extra[0] != "i" and (a.extra[1] < n or (a.extra[0] == "s" and a.extra[1] <= n)):
            return t
    if n > 1 and is_bool(t):
        return t
    return P(mk("S", n, _strip_ring(n, t)))


def _strip_ring(n, t):
    """inside U/S n: nested U/S of >= n bits that occur linearly can be dropped; coefficients mod 2^n."""
    changed = False
    out = ZERO
    for m, c in t.items:
        if len(m) >= 1 and isinstance(c, int):
            mono = P(c)
            for a in m:
                if a.kind in ("U", "S") and a.args[0] >= n:
                    mono = mono * a.args[1]
                    changed = True
                else:
                    mono = mono * P(a)
            out = out + mono
        else:
            out = out + _poly({m: c})
    return out if changed else t


def div(a, b, signed=True):
    ca, cb = a.const(), b.const()
    if cb == 1:
        return a
    if ca is not None and cb is not None and cb != 0:
        q = abs(int(ca)) // abs(int(cb))
        return P(q if (ca >= 0) == (cb > 0) else -q)
    # exact polynomial division by a monomial divisor
    q = exact_div(a, b)
    if q is not None:
        return q
    return P(mk("div", a, b))


def rem(a, b):
    """C remainder = a - b*div(a,b)"""
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None and cb != 0:
        r = abs(int(ca)) % abs(int(cb))
        return P(r if ca >= 0 else -r)
    return a - b * div(a, b)


def exact_div(a, b):
    """a/b when every monomial of a is divisible by the single-monomial b with integer coefficient."""
    if a is ZERO:
        return ZERO
    if len(b.items) != 1:
        # try a == k*b
        if len(a.items) == len(b.items) and a.items and b.items:
            k = Fraction(a.items[0][1]) / b.items[0][1]
            if k.denominator == 1 and a == b * int(k):
                return P(int(k))
        return None
    mb, cb = b.items[0]
    d = {}
    for m, c in a.items:
        l = list(m)
        for x in mb:
            if x in l:
                l.remove(x)
            else:
                return None
        k = Fraction(c) / cb
        if k.denominator != 1:
            return None
        d[tuple(l)] = int(k)
    return _poly(d)


def inv(b):
    c = b.const()
    if c is not None:
        if c == 0:
            return P(mk("inv", b, isint=False))
        return P(Fraction(1) / c)
    if len(b.items) == 1 and len(b.items[0][0]) == 1 and b.items[0][0][0].kind == "inv":
        return b.items[0][0][0].args[0] * (Fraction(1) / b.items[0][1])
    lead = _lead(b)
    if lead != 1:
        return P(mk("inv", b * (Fraction(1) / lead), isint=False)) * (Fraction(1) / lead)
    return P(mk("inv", b, isint=False))


def ftoi(n, signed, t):
    """float -> int conversion: truncation towards zero (range left to the caller)."""
    c = t.const()
    if c is not None:
        q = int(c)
        return P(q)
    if t.isint:
        return t
    return P(mk("ftoi", n, signed, t))


def app(f, *args, isint=False):
    return P(mk("app", f, *args, isint=isint))


def read(arr, idx, ty, isint=True):
    a = mk("read", arr, idx, isint=isint)
    if a.extra is None:
        a.extra = ty
    return P(a)


def canon_bind(kind, var, N, *bodies, extra=()):
    """Build binder with var abstracted.  args = (h, N, *extra, *bodies[h/var])"""
    h = 0
    for b in bodies:
        if isinstance(b, (Poly, Arr)):
            h = max(h, b.height)
        elif isinstance(b, tuple):
            h = max(h, _args_fv(b)[1])
        elif isinstance(b, BDD):
            for v in b_vars(b):
                h = max(h, v.height)
    bvp = P(mk("bv", h))
    return h, tuple(subst(b, {var: bvp}) if isinstance(b, Poly) else
                    tuple(subst(x, {var: bvp}) for x in b) if isinstance(b, tuple) else b for b in bodies)


def ssum(var, N, body):
    """sum_{var in [0,N)} body; N assumed >= 0."""
    if body is ZERO:
        return ZERO
    if var not in body.fv:
        return body * N
    cN = N.const()
    if cN is not None and cN <= 0:
        return ZERO
    # linear: split per monomial, pulling factors free of var out
    groups = {}
    for m, c in body.items:
        dep = tuple(a for a in m if var in a.fv)
        ind = tuple(a for a in m if var not in a.fv)
        # keep indicators together with what they guard? they are ring elements, fine to pull out
        groups.setdefault(dep, {})
        g = groups[dep]
        g[ind] = g.get(ind, 0) + c
    out = ZERO
    vp = P(var)
    for dep, g in groups.items():
        coef = _poly(g)
        if dep == ():
            out = out + coef * N
            continue
        if all(a is var for a in dep) and len(dep) <= 2:
            if len(dep) == 1:
                out = out + coef * (N * (N - 1)) * Fraction(1, 2)
            else:
                out = out + coef * (N - 1) * N * (2 * N - 1) * Fraction(1, 6)
            continue
        h, (bd,) = canon_bind("sum", var, N, _poly({dep: 1}))
        out = out + coef * P(mk("sum", h, N, bd, isint=bd.isint))
    return out


def red(op, var, N, init, body):
    h, (bd,) = canon_bind("red", var, N, body)
    return P(mk("red", h, op, N, init, bd, isint=bd.isint and init.isint))


def open_binder(a):
    """fresh variable + opened bodies of a binder atom."""
    h = a.args[0]
    v = fresh("b")
    bvp = mk("bv", h)
    sub = {bvp: P(v)}
    return v, sub


# ---------------------------------------------------------------- arrays
_arrs = {}


class Arr:
    """Array value. kind: init(root) | zero(root) | undef(root) | st(prev,node) | ite(c,a,b) | var(sym)
    node: tuple, see evalr"""
    __slots__ = ("kind", "args", "id", "fv", "height", "root")

    def __repr__(self):
        return show_arr(self)


def mkarr(kind, root, *args):
    key = (kind, root, args)
    a = _arrs.get(key)
    if a is None:
        a = Arr()
        a.kind, a.root, a.args, a.id = kind, root, args, len(_arrs)
        fv, h = frozenset(), 0
        for x in args:
            if isinstance(x, (Arr, Poly)):
                fv |= x.fv
                h = max(h, x.height)
            elif isinstance(x, Atom):
                fv |= x.fv
            elif isinstance(x, BDD):
                for v in b_vars(x):
                    fv |= v.fv
            elif isinstance(x, Node):
                fv |= x.fv
                h = max(h, x.height)
        a.fv, a.height = fv, h
        _arrs[key] = a
    return a


_nodes = {}


class Node:
    """Effect on an array: Node('st'|'acc', guard, idx, val, loc) or Node('loop', var, N, children)."""
    __slots__ = ("kind", "args", "id", "fv", "height")


def mknode(kind, *args):
    key = (kind, args)
    n = _nodes.get(key)
    if n is None:
        n = Node()
        n.kind, n.args, n.id = kind, args, len(_nodes)
        fv, h = frozenset(), 0
        if kind == "loop":
            var, N, ch = args
            for c in ch:
                fv |= c.fv
                h = max(h, c.height)
            fv = (fv - {var}) | N.fv
            h = max(h, N.height)
        else:
            g, idx, val = args[:3]
            for v in b_vars(g):
                fv |= v.fv
                h = max(h, v.height)
            fv |= idx.fv | val.fv
            h = max(h, idx.height, val.height)
        n.fv, n.height = fv, h
        _nodes[key] = n
    return n


# ---------------------------------------------------------------- substitution
class Sub:
    """Substitution {atom: Poly} (+ {sym atom of array var: Arr}) with memo."""

    def __init__(self, m, arrs=None, simp=None):
        self.m = m
        self.keys = frozenset(m)
        self.arrs = arrs or {}
        if arrs:
            self.keys = self.keys | frozenset(arrs)
        self.memo = {}
        self.vfv = None
        self.simp = simp

    def poly(self, p):
        if not (p.fv & self.keys):
            return p
        r = self.memo.get(p)
        if r is not None:
            return r
        out = {}
        acc = ZERO
        for m, c in p.items:
            hit = False
            for a in m:
                if a.fv & self.keys:
                    hit = True
                    break
            if not hit:
                out[m] = out.get(m, 0) + c
                continue
            t = P(c)
            for a in m:
                t = t * self.atom(a)
                if t is ZERO:
                    break
            acc = acc + t
        r = acc + _poly(out) if out else acc
        self.memo[p] = r
        return r

    def atom(self, a):
        if a in self.m:
            return self.m[a]
        if not (a.fv & self.keys):
            return P(a)
        r = self.memo.get(a)
        if r is not None:
            return r
        r = self._atom(a)
        if self.simp is not None:
            r = self.simp(r)
        self.memo[a] = r
        return r

    def any(self, x):
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, Arr):
            return self.arr(x)
        if isinstance(x, BDD):
            return self.bdd(x)
        if isinstance(x, tuple):
            return tuple(self.any(y) for y in x)
        if isinstance(x, Atom):
            r = self.atom(x)
            return r
        return x

    def _atom(self, a):
        k = a.kind
        A = a.args
        if k == "ind":
            return b_poly(self.ind(a))
        if k == "U":
            return U(A[0], self.poly(A[1]))
        if k == "S":
            return S(A[0], self.poly(A[1]))
        if k == "div":
            return div(self.poly(A[0]), self.poly(A[1]))
        if k == "inv":
            return inv(self.poly(A[0]))
        if k == "ftoi":
            return ftoi(A[0], A[1], self.poly(A[2]))
        if k == "read":
            from . import arrays
            return arrays.mkread(self.arr(A[0]), self.poly(A[1]), a.extra, a.isint)
        if k == "app":
            return P(mk("app", A[0], *[self.poly(x) for x in A[1:]], isint=a.isint))
        if k == "sum":
            v, s0 = open_binder(a)
            body = Sub(s0).poly(A[2])
            return ssum(v, self.poly(A[1]), self.poly(body))
        if k == "red":
            v, s0 = open_binder(a)
            body = Sub(s0).poly(A[4])
            return red(A[1], v, self.poly(A[2]), self.poly(A[3]), self.poly(body))
        if k == "fold":
            # (h, N, which, stateh(tuple of state sym atoms), inits, nexts)
            v, s0 = open_binder(a)
            nx = tuple(self.poly(Sub(s0).poly(x)) for x in A[5])
            return fold(v, self.poly(A[1]), A[2], A[3], tuple(self.poly(x) for x in A[4]), nx)
        if k == "first":
            v, s0 = open_binder(a)
            b = self.poly(Sub(s0).poly(A[2]))
            return first(v, self.poly(A[1]), b)
        raise KeyError(k)

    def ind(self, a):
        kind, p = a.args
        q = self.poly(p)
        if kind == "ge":
            return ge0(q)
        if kind == "eq":
            return eq0(q)
        if kind == "gt":
            return gt0r(q)
        if kind == "rge":
            return b_not(gt0r(-q))
        raise KeyError(kind)

    def bdd(self, b):
        if b.var is None:
            return b
        r = self.memo.get(b)
        if r is not None:
            return r
        hi, lo = self.bdd(b.hi), self.bdd(b.lo)
        if b.var in self.m:
            q = poly_bdd(self.m[b.var])
        elif b.var.fv & self.keys:
            q = poly_bdd(self.atom(b.var))
        else:
            q = b_lit(b.var)
        r = b_ite(q, hi, lo)
        self.memo[b] = r
        return r

    def node(self, n):
        if not (n.fv & self.keys):
            return n
        if n.kind == "loop":
            var, N, ch = n.args
            if self.vfv is None:
                f = frozenset()
                for v in self.m.values():
                    f |= v.fv
                for v in self.arrs.values():
                    f |= v.fv
                self.vfv = f
            if var in self.keys or var in self.vfv:
                # capture-avoiding
                nv = fresh("r")
                sb = Sub({var: P(nv)})
                ch = tuple(sb.node(c) for c in ch)
                var = nv
            return mknode("loop", var, self.poly(N), tuple(self.node(c) for c in ch))
        g, idx, val = n.args[:3]
        return mknode(n.kind, self.bdd(g), self.poly(idx), self.poly(val), *n.args[3:])

    def arr(self, a):
        if not (a.fv & self.keys):
            return a
        r = self.memo.get(a)
        if r is not None:
            return r
        if a.kind == "var":
            r = self.arrs.get(a.args[0], a)
        elif a.kind == "st":
            r = mkarr("st", a.root, self.arr(a.args[0]), self.node(a.args[1]))
        elif a.kind == "ite":
            c = self.bdd(a.args[0])
            x, y = self.arr(a.args[1]), self.arr(a.args[2])
            r = x if c is TRUE else y if c is FALSE else mkarr("ite", a.root, c, x, y)
        else:
            r = a
        self.memo[a] = r
        return r


def subst(x, m):
    return Sub(m).any(x)


def fold(var, N, which, states, inits, nexts):
    """value of state[which] after N iterations of states:=nexts (var = iteration number).
    states: tuple of sym atoms that are bound as well (kept as canonical names)."""
    h = 0
    for b in nexts:
        h = max(h, b.height)
    bvp = P(mk("bv", h))
    n = len(states)
    best = None
    # canonical state names and order
    for perm in (itertools.permutations(range(n)) if n <= 3 else (tuple(range(n)),)):
        canon = tuple(mk("sym", "st%d.%d%s" % (h, i, "" if states[p].isint else "r"), isint=states[p].isint) for i, p in enumerate(perm))
        m = {var: bvp}
        for p, c in zip(perm, canon):
            m[states[p]] = P(c)
        sb = Sub(m)
        nx = tuple(sb.poly(nexts[p]) for p in perm)
        ini = tuple(inits[p] for p in perm)
        k = tuple(tuple((tuple(a.id for a in mo), co) for mo, co in x.items) for x in ini + nx)
        if best is None or k < best[0]:
            best = (k, canon, ini, nx, perm.index(which))
    _, canon, inits, nx, w = best
    a = mk("fold", h, N, w, canon, tuple(inits), nx, isint=states[which].isint)
    # canonical state symbols are bound
    a.fv = (frozenset().union(N.fv, *[i.fv for i in inits], *[n.fv - frozenset(canon) for n in nx])
            - {mk("bv", h)})
    return P(a)


def first(var, N, cond):
    """least i in [0,N) with cond (0/1 poly), or N."""
    if cond is ZERO:
        return N
    h, (bd,) = canon_bind("first", var, N, cond)
    return P(mk("first", h, N, bd))


# ---------------------------------------------------------------- printing
def show_atom(a, d=0):
    k, A = a.kind, a.args
    if k == "sym":
        return str(A[0])
    if k == "bv":
        return "i%d" % A[0]
    if k == "ind":
        op = {"ge": ">=0", "eq": "==0", "gt": ">0", "rge": ">=0"}[A[0]]
        return "[%s%s]" % (show(A[1]), op)
    if k in ("U", "S"):
        return "%s%d(%s)" % (k.lower(), A[0], show(A[1]))
    if k == "div":
        return "(%s)/(%s)" % (show(A[0]), show(A[1]))
    if k == "inv":
        return "1/(%s)" % show(A[0])
    if k == "ftoi":
        return "int(%s)" % show(A[2])
    if k == "read":
        return "%s[%s]" % (show_arr(A[0]), show(A[1]))
    if k == "sum":
        return "Sum{i%d<%s}(%s)" % (A[0], show(A[1]), show(A[2]))
    if k == "red":
        return "%s{i%d<%s}(%s; %s)" % (A[1], A[0], show(A[2]), show(A[3]), show(A[4]))
    if k == "fold":
        return "Fold{i%d<%s}.%d(%s -> %s)" % (A[0], show(A[1]), A[2], ",".join(map(show, A[4])), ",".join(map(show, A[5])))
    if k == "first":
        return "First{i%d<%s}(%s)" % (A[0], show(A[1]), show(A[2]))
    if k == "app":
        return "%s(%s)" % (A[0], ",".join(map(show, A[1:])))
    return "%s%r" % (k, A)


def show(p, lim=60):
    if isinstance(p, Atom):
        return show_atom(p)
    if not p.items:
        return "0"
    s = []
    for n, (m, c) in enumerate(p.items):
        if n > lim:
            s.append("+...")
            break
        t = "*".join(show_atom(a) for a in m)
        if not m:
            t = str(c)
        elif c == -1:
            t = "-" + t
        elif c != 1:
            t = "%s*%s" % (c, t)
        s.append(t if n == 0 or t.startswith("-") else "+" + t)
    return "".join(s)


def show_bdd(b):
    if b is TRUE:
        return "T"
    if b is FALSE:
        return "F"
    l = b_literals(b)
    if l:
        return "&".join(("" if pol else "!") + show_atom(a) for a, pol in l)
    return "<" + show(b_poly(b)) + ">"


def show_arr(a):
    if a.kind in ("init", "zero", "undef"):
        return a.root if a.kind == "init" else "%s:%s" % (a.kind, a.root)
    if a.kind == "var":
        return "%s@%s" % (a.root, a.args[0].args[0])
    if a.kind == "st":
        return show_arr(a.args[0]) + "'" 
    return "ite(%s)" % a.root
