"""Rewriting lemmas used on residues: prefix sums (telescoping) and clearing of denominators."""
from fractions import Fraction
from .terms import *
from .terms import _poly
from . import terms as T
from .arrays import split_by

VAR = T.mk("sym", "\u00a7")


def find_pivot(p, v, seen=None):
    """a read atom below p whose index is linear in v -> (atom, coefficient, rest)"""
    best = None
    for a in sorted(p.atoms(), key=lambda a: (a.kind != "read", a.id)):
        if v not in a.fv:
            continue
        if a.kind == "read":
            c, e = split_by(a.args[1], v)
            if c is not None and c is not ZERO and v not in c.fv:
                k = (a.args[0].id, a.id)
                if best is None or k < best[0]:
                    best = (k, a, c, e)
                continue
        if best is None:
            for x in a.args:
                if isinstance(x, Poly) and v in x.fv:
                    r = find_pivot(x, v)
                    if r is not None:
                        return r
    return best[1:] if best else None


def part_divisible(e, c):
    """s, r with e = c*s + r"""
    k = c.const()
    if k is not None:
        if k == 1:
            return e, ZERO
        if k == -1:
            return -e, ZERO
        s, r = {}, {}
        for m, x in e.items:
            q = Fraction(x) / k
            if q.denominator == 1:
                s[m] = int(q)
            else:
                r[m] = x
        return _poly(s), _poly(r)
    at = c.atom()
    if at is None:
        return None
    return split_by(e, at)


def family(body, v, ctx):
    """body(v) = key(v + s)"""
    pv = find_pivot(body, v)
    if pv is None:
        return None
    a, c, e = pv
    pd = part_divisible(e, c)
    if pd is None or pd[0] is None:
        return None
    s, r = pd
    if any(x.kind == "bv" for x in s.fv):
        # only the part free of bound variables can be moved
        s = _poly({m: k for m, k in s.items if not any(y.kind == "bv" for z in m for y in z.fv)})
    key = ctx.simp(T.Sub({v: P(VAR) - s}).poly(body))
    return key, s, a.args[0], c, r


def telescope(d, ctx):
    fams = {}
    out = ZERO
    rest = []
    changed = False
    for m, k in d.items:
        sums = [a for a in m if a.kind == "sum"]
        if len(sums) != 1:
            rest.append((m, k))
            continue
        a = sums[0]
        N = a.args[1]
        if not ctx.entails(N):
            rest.append((m, k))
            continue
        v, s0 = T.open_binder(a)
        body = T.Sub(s0).poly(a.args[2])
        f = family(body, v, ctx)
        if f is None:
            rest.append((m, k))
            continue
        key, s, arr, c, r = f
        fams[key] = (arr, c, r)
        lst = list(m)
        lst.remove(a)
        co = _poly({tuple(lst): k})
        isint = key.isint
        out = out + co * (T.app("prefix", key, ctx.simp(s + N), isint=isint) - T.app("prefix", key, ctx.simp(s), isint=isint))
        changed = True
    if not changed:
        return d
    for m, k in rest:
        hit = None
        for key, (arr, c, r) in fams.items():
            if len(key.items) != 1 or key.items[0][1] != 1:
                continue
            want = key.items[0][0]
            for x in m:
                if x.kind != "read" or x.args[0] is not arr:
                    continue
                pd = part_divisible(x.args[1] - r, c)
                if pd is None or pd[0] is None or pd[1] is not ZERO:
                    continue
                t = pd[0]
                inst = ctx.simp(T.Sub({VAR: t}).poly(key))
                if len(inst.items) != 1 or inst.items[0][1] != 1:
                    continue
                left = list(m)
                try:
                    for y in inst.items[0][0]:
                        left.remove(y)
                except ValueError:
                    continue
                hit = _poly({tuple(left): k}) * (T.app("prefix", key, ctx.simp(t + 1), isint=key.isint) -
                                                 T.app("prefix", key, ctx.simp(t), isint=key.isint))
                break
            if hit is not None:
                break
        out = out + (hit if hit is not None else _poly({m: k}))
    return out


def regroup(d, ctx):
    """k*prefix(b) - k*prefix(a)  ->  k*sum over [a,b)"""
    fams = {}
    out = ZERO
    for m, k in d.items:
        pf = [a for a in m if a.kind == "app" and a.args[0] == "prefix"]
        if len(pf) != 1:
            out = out + _poly({m: k})
            continue
        l = list(m)
        l.remove(pf[0])
        fams.setdefault((pf[0].args[1], tuple(l), abs(k)), []).append((k, pf[0]))
    for (key, rest, k0), ts in fams.items():
        pos = [a for k, a in ts if k > 0]
        neg = [a for k, a in ts if k < 0]
        co = _poly({rest: k0})
        while pos and neg:
            b = pos[0]
            a = next((z for z in neg if ctx.entails(b.args[2] - z.args[2])), None)
            sg = 1
            if a is None:
                a = next((z for z in neg if ctx.entails(z.args[2] - b.args[2])), None)
                sg = -1
            if a is None:
                break
            pos.remove(b)
            neg.remove(a)
            lo, hi = (a.args[2], b.args[2]) if sg > 0 else (b.args[2], a.args[2])
            j = T.fresh("q")
            body = ctx.simp(T.Sub({VAR: lo + P(j)}).poly(key))
            out = out + co * sg * T.ssum(j, ctx.simp(hi - lo), body)
        for a in pos:
            out = out + co * P(a)
        for a in neg:
            out = out - co * P(a)
    return out


def tele(d, ctx):
    return ctx.simp(regroup(ctx.simp(telescope(d, ctx)), ctx))


def deep(d, f, ctx, depth=0):
    """apply f to d and to the arguments of div/U/S/inv/ind atoms of d"""
    if depth > 6:
        return d
    out = ZERO
    for m, k in d.items:
        t = P(k)
        for a in m:
            y = None
            if a.kind == "div":
                y = T.div(deep(a.args[0], f, ctx, depth + 1), deep(a.args[1], f, ctx, depth + 1))
            elif a.kind == "inv":
                y = T.inv(deep(a.args[0], f, ctx, depth + 1))
            elif a.kind in ("U", "S"):
                z = deep(a.args[1], f, ctx, depth + 1)
                y = None if z is a.args[1] else (T.U if a.kind == "U" else T.S)(a.args[0], z)
            elif a.kind == "ind" and a.args[0] == "ge":
                y = b_poly(ge0(deep(a.args[1], f, ctx, depth + 1)))
            elif a.kind == "ind" and a.args[0] == "eq":
                y = b_poly(eq0(deep(a.args[1], f, ctx, depth + 1)))
            t = t * (y if y is not None else P(a))
        out = out + t
    return f(ctx.simp(out), ctx)


def frac(p, depth=0):
    """p = num/den without inverse atoms at the top (den: product of polynomials)"""
    if depth > 6:
        return p, []
    num, dens = ZERO, []
    for m, k in p.items:
        n, ds = P(k), []
        for a in m:
            if a.kind == "inv":
                qn, qd = frac(a.args[0], depth + 1)
                for z in qd:
                    n = n * z
                ds.append(qn)
            else:
                n = n * P(a)
        # common denominator
        have = list(dens)
        mine = []
        for z in ds:
            if z in have:
                have.remove(z)
            else:
                mine.append(z)
        # have: factors only the others use; mine: factors only this term uses
        for z in have:
            n = n * z
        for z in mine:
            num = num * z
        dens = dens + mine
        num = num + n
        if len(dens) > 6 or len(num.items) > 400:
            raise OverflowError
    return num, dens


def residue_zero(d, ctx):
    """d == 0 by the lemmas?"""
    from .check import eliminate_atom
    for a, pol in list(ctx.lits.items()):
        if pol and a.args[0] == "eq" and any(x.kind not in ("sym",) for x in a.args[1].atoms()):
            e = ctx.simp(eliminate_atom(a.args[1], d))
            if e is ZERO:
                return True
            d = e
    e = ctx.simp(deep(d, tele, ctx))
    if e is ZERO:
        return True
    if any(a.kind == "inv" for a in e.atoms()):
        try:
            n, _ = frac(e)
        except OverflowError:
            return False
        n = ctx.simp(n)
        if n is ZERO:
            return True
        n = ctx.simp(deep(n, tele, ctx))
        return n is ZERO
    return False
