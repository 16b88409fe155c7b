"""Equality of a computed closed form with its specification under the facts of a context."""
import random
from fractions import Fraction
from .terms import *
from . import terms as T
from .interp import Interp, Undefined, sample, constants


def all_inds(p, out=None, seen=None):
    """indicator atoms (any depth) without bound variables"""
    if out is None:
        out, seen = [], set()
    if p in seen:
        return out
    seen.add(p)
    for a in sorted(p.atoms(), key=lambda a: a.id):
        _inds_atom(a, out, seen)
    return out


def _inds_atom(a, out, seen):
    if a in seen:
        return
    seen.add(a)
    if a.kind == "ind":
        if not any(x.kind == "bv" or (x.kind == "sym" and x.args[0].startswith("st")) for x in a.fv):
            out.append(a)
    for x in a.args:
        if isinstance(x, Poly):
            all_inds(x, out, seen)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, Poly):
                    all_inds(y, out, seen)


def free_inds(p):
    """gates of p (any depth) over its free variables only"""
    out, seen = [], set()

    def walk(q):
        if q in seen:
            return
        seen.add(q)
        for a in sorted(q.atoms(), key=lambda a: a.id):
            if a in seen:
                continue
            seen.add(a)
            if a.kind == "ind":
                if a.fv <= p.fv and not any(x.kind == "sym" and x.args[0].startswith("st") for x in a.fv):
                    out.append(a)
            for x in a.args:
                if isinstance(x, Poly):
                    walk(x)
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, Poly):
                            walk(y)
    walk(p)
    return out


def next_gate(d, ctx, free=False):
    """an undecided gate of d or of the facts, innermost first"""
    find = free_inds if free else all_inds
    inds = find(d)
    for f in ctx.facts():
        if any(x.kind == "ind" for x in f.atoms()):
            inds = inds + [x for x in find(f) if x not in inds]
    inds = [x for x in inds if x not in ctx.lits and ctx.lit_value(x) is None]
    if not inds:
        return None
    inner = [x for x in inds if not any(y.kind == "ind" for y in x.args[1].atoms())]
    return min(inner or inds, key=lambda x: x.id)


def gate_cases(a, ctx):
    """the live cases of gate a, the gated facts simplified in each"""
    for pol in (True, False):
        c = ctx.child()
        c.add_lit(a, pol)
        if c.dead:
            continue
        for f in ctx.facts():
            if any(x.kind == "ind" for x in f.atoms()):
                g = c.simp(f)
                if g is not f:
                    c.add_ge(g)
        if c.dead or c.entails(P(-1)):
            continue
        yield pol, c


class Proof:
    def __init__(self):
        self.leaves = 0
        self.residues = []
        self.splits = 0


def replace_atom(d, a, v, seen=None):
    """d with atom a replaced by v (also below inverse, division and indicator atoms)"""
    from .terms import inv, div, _poly
    out = ZERO
    for m, c in d.items:
        t = P(c)
        for x in m:
            if x is a:
                y = v
            elif x.kind == "inv":
                y = inv(replace_atom(x.args[0], a, v))
            elif x.kind == "div":
                y = div(replace_atom(x.args[0], a, v), replace_atom(x.args[1], a, v))
            else:
                y = P(x)
            t = t * y
        out = out + t
    return out


def eliminate_atom(p, d):
    """use p == 0 with p = c*atom + const"""
    q = [(m, c) for m, c in p.items if m]
    k = sum(c for m, c in p.items if not m)
    if len(q) == 1 and len(q[0][0]) == 1:
        return replace_atom(d, q[0][0][0], P(T._norm(-Fraction(k) / q[0][1])))
    return d


def eliminate(p, d):
    """use p == 0 (p linear with unit coefficient in a symbol) to rewrite d"""
    from .prover import lin_coef_poly
    for m, c in sorted(p.items, key=lambda t: -(t[0][0].id if t[0] else 0)):
        if len(m) == 1 and m[0].kind == "sym" and c in (1, -1):
            a = m[0]
            rest = p - P(a) * c
            if a in rest.fv:
                continue
            return T.Sub({a: rest * (-c)}).poly(d)
    return d


def prove_zero(d, ctx, pf=None, limit=600, depth=0):
    """True when d is 0 under the facts (case split on its gates)"""
    if pf is None:
        pf = Proof()
    if ctx.dead:
        return True
    dl = getattr(pf, "deadline", None)
    if dl is not None:
        import time
        if time.time() > dl:
            pf.residues.append((d, ctx))
            return False
    d = ctx.simp(d)
    if d is ZERO:
        pf.leaves += 1
        return True
    if pf.leaves + len(pf.residues) > limit or depth > 24:
        pf.residues.append((d, ctx))
        return False
    top = [a for a in sorted(d.atoms(), key=lambda a: a.id) if a.kind == "ind" and
           not any(x.kind == "bv" for x in a.fv)]
    inds = top or all_inds(d)
    if not inds:
        from .lemmas import residue_zero
        try:
            if residue_zero(d, ctx):
                pf.leaves += 1
                return True
        except RecursionError:
            pass
        pf.residues.append((d, ctx))
        return False
    # most frequent gate first
    cnt = {a: 0 for a in inds}
    for m, c in d.items:
        for a in m:
            if a in cnt:
                cnt[a] += 1
    a = max(inds, key=lambda a: (cnt[a], -a.id))
    for _ in range(6):
        inner = [x for x in all_inds(a.args[1]) if ctx.lit_value(x) is None and x not in ctx.lits]
        if not inner:
            break
        a = min(inner, key=lambda a: a.id)
    pf.splits += 1
    ok = True
    for pol, c in gate_cases(a, ctx):
        dd = d
        if pol and a.args[0] == "eq" and a.args[1].isint:
            dd = eliminate(a.args[1], d)
        elif pol and a.args[0] == "eq":
            dd = eliminate_atom(a.args[1], d)
        if not prove_zero(dd, c, pf, limit, depth + 1):
            ok = False
            if len(pf.residues) > 12:
                return False
    return ok


def separate(got, spec, ctx, syms, roots, rng, n=200, spans=None, same=None):
    """valuation on which the two closed forms differ, or None"""
    tested = 0
    undef = 0
    for k in range(n):
        it = sample(ctx, syms, rng, roots, spans=spans, mode=k % 4)
        if it is None:
            continue
        try:
            b = it.poly(spec)
        except Undefined:
            undef += 1
            continue
        try:
            a = it.poly(got)
        except Undefined as e:
            if str(e) == "division by zero":
                return tested, it, "division by zero", b
            undef += 1
            continue
        tested += 1
        if a != b and not (same and same(a, b, it)):
            return tested, it, a, b
    return tested, None, None, None


# ------------------------------------------------------------------ verdicts
class Verdict:
    """status: proved | refuted | open.  `open`: the normal forms differ but no valuation separates them."""

    def __init__(self, status, **kw):
        self.status = status
        self.splits = kw.get("splits", 0)
        self.leaves = kw.get("leaves", 0)
        self.tested = kw.get("tested", 0)
        self.witness = kw.get("witness")
        self.got = kw.get("got")
        self.want = kw.get("want")
        self.loc = kw.get("loc")
        self.why = kw.get("why")


SPANS = (2, 4, 6, 9, 14)


def try_separate(got, spec, ctx, syms, roots, rng, n, same=None, pre=None, extra_lits=True):
    tested = 0
    fails = 0
    why = None
    cs = constants(got, spec)
    for k in range(n):
        sp = SPANS[k % len(SPANS)]
        it = sample(ctx, syms, rng, roots, spans={a.args[0]: sp for a in syms}, mode=(k // len(SPANS)) % 4, tries=12,
                    consts=cs if k % 6 == 5 else ())
        if it is None:
            fails += 1
            if fails > 25 and not tested:
                break
            continue
        try:
            if pre is not None and not pre(it):
                continue
            b = it.poly(spec)
        except Undefined as e:
            why = str(e)
            continue
        try:
            a = it.poly(got)
        except Undefined as e:
            why = str(e)
            if why == "division by zero":
                return tested, it, why, b, why
            continue
        tested += 1
        if a != b and not (same and same(a, b, it)):
            return tested, it, a, b, None
    return tested, None, None, None, why


def describe(it, syms):
    return {a.args[0]: str(it.env[a]) for a in syms if a in it.env}


def decide(got, spec, ctx, syms, roots, seed=1, n=400, limit=400, same=None, pre=None, time_limit=None):
    """closed form `got` equals `spec` under the facts of ctx?"""
    import time
    t0 = time.time()
    rng = random.Random(seed)
    pf = Proof()
    pf.deadline = t0 + (time_limit or 60)
    ok = False
    try:
        ok = prove_zero(got - spec, ctx, pf, limit)
    except (RecursionError, TimeoutError):
        pf.residues.append((got - spec, ctx))
    if ok:
        return Verdict("proved", splits=pf.splits, leaves=pf.leaves)
    tested = 0
    why = None
    # the leaves whose normal forms differ first: their gates are what triggers the difference
    for d, c in pf.residues[:24]:
        t, it, a, b, w = try_separate(got, spec, c, syms, roots, rng, 40, same, pre)
        tested += t
        why = why or w
        if it is not None:
            return Verdict("refuted", splits=pf.splits, leaves=pf.leaves, tested=tested, witness=describe(it, syms), got=a, want=b)
    t, it, a, b, w = try_separate(got, spec, ctx, syms, roots, rng, n, same, pre)
    tested += t
    if it is not None:
        return Verdict("refuted", splits=pf.splits, leaves=pf.leaves, tested=tested, witness=describe(it, syms), got=a, want=b)
    return Verdict("open", splits=pf.splits, leaves=pf.leaves, tested=tested, why=w or why or "normal forms differ, no separating valuation")
