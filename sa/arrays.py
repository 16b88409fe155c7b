"""Reads from symbolic array values (store / accumulate / loop effects)."""
from .terms import *
from .terms import _poly
from . import terms as T


def mkread(arr, idx, ty, isint):
    """cheap read: only syntactic forwarding"""
    a = arr
    while True:
        if a.kind == "zero":
            return ZERO
        if a.kind == "st":
            n = a.args[1]
            if n.kind == "st" and n.args[0] is TRUE:
                d = (idx - n.args[1])
                if d is ZERO:
                    return n.args[2]
                if d.const() is not None:
                    a = a.args[0]
                    continue
            if n.kind == "acc" and n.args[0] is TRUE:
                d = (idx - n.args[1])
                if d is ZERO:
                    return n.args[2] + mkread(a.args[0], idx, ty, isint)
                if d.const() is not None:
                    a = a.args[0]
                    continue
        break
    return T.read(a, idx, ty, isint)


def resolve_read(arr, idx, ty, isint, ctx, depth=0):
    if arr.kind == "zero":
        return ZERO
    if arr.kind in ("init", "undef", "var"):
        return T.read(arr, idx, ty, isint)
    if arr.kind == "ite":
        c = ctx.bdd_value(arr.args[0])
        if c is TRUE:
            return resolve_read(arr.args[1], idx, ty, isint, ctx, depth)
        if c is FALSE:
            return resolve_read(arr.args[2], idx, ty, isint, ctx, depth)
        return ite(c, resolve_read(arr.args[1], idx, ty, isint, ctx.with_bdd(c), depth),
                   resolve_read(arr.args[2], idx, ty, isint, ctx.with_bdd(b_not(c)), depth))
    prev, n = arr.args
    if depth > 60:
        return T.read(arr, idx, ty, isint)
    r = node_lookup(n, idx, ctx)
    if r is None:
        return T.read(arr, idx, ty, isint)
    kind, hits = r
    # hits: list of (cond BDD, value)
    if kind == "acc":
        out = resolve_read(prev, idx, ty, isint, ctx, depth + 1)
        for c, v in hits:
            out = out + b_poly(ctx.bdd_value(c)) * v
        return out
    rest = TRUE
    live = []
    for c, v in hits:
        c = ctx.bdd_value(c)
        if c is FALSE:
            continue
        live.append((c, v))
        rest = b_and(rest, b_not(c))
    rest = ctx.bdd_value(rest)
    out = ZERO
    if rest is not FALSE:
        out = resolve_read(prev, idx, ty, isint, ctx.with_bdd(rest), depth + 1)
        if rest is not TRUE:
            out = b_poly(rest) * out
    for c, v in live:
        out = out + b_poly(c) * v
    return out


def leaves(n, doms=()):
    if n.kind == "loop":
        var, N, ch = n.args
        for c in ch:
            yield from leaves(c, doms + ((var, N),))
    else:
        yield doms, n


def node_lookup(n, idx, ctx):
    """-> ('st'|'acc', [(cond, val)]) ; conds pairwise disjoint for 'st'; None when not solved"""
    lv = list(leaves(n))
    kinds = set(l.kind for _, l in lv)
    if len(kinds) != 1 or "rec" in kinds:
        return None
    kind = kinds.pop()
    hits = []
    for doms, l in lv:
        e = l.args[1]
        if any(a.kind == "ind" for a in e.atoms()):
            e = dom_ctx(ctx, doms).simp(e)
        s = solve(doms, e, idx, ctx, kind)
        if s is None:
            if kind == "acc" and doms:
                # generic: sum over the domain of [idx==e]*g
                body = b_poly(b_and(l.args[0], eq0(e - idx))) * l.args[2]
                for var, N in reversed(doms):
                    body = T.ssum(var, N, body)
                hits.append((TRUE, body))
                continue
            return None
        cond, asg = s
        if cond is FALSE:
            continue
        g, v = l.args[0], l.args[2]
        if asg:
            sb = T.Sub(asg)
            g, v = sb.bdd(g), sb.poly(v)
        cond = ctx.bdd_value(b_and(cond, g))
        if cond is FALSE:
            continue
        hits.append((cond, v))
    if kind == "st" and len(hits) > 1:
        for i in range(len(hits)):
            for j in range(i):
                if ctx.bdd_value(b_and(hits[i][0], hits[j][0])) is not FALSE:
                    return None
    return kind, hits


def dom_ctx(ctx, doms):
    c = ctx.child()
    for var, N in doms:
        c.add_ge(P(var))
        c.add_ge(N - 1 - P(var))
    return c


def row_split(d, ctx):
    """d = A*s + B with |B| < s for a stride s: d == 0 iff A == 0 and B == 0"""
    cand = []
    for m, c in d.items:
        if len(m) >= 2:
            for a in m:
                if a.kind == "sym" and a not in cand:
                    cand.append(a)
    for s in cand:
        A, B = split_by(d, s)
        if A is None:
            continue
        for k in (0, 1, -1):
            Bk = B + k * P(s)
            if ctx.entails(P(s) - 1 - Bk) and ctx.entails(Bk + P(s) - 1):
                return A - k, Bk
    pairs = []
    for m, c in d.items:
        if len(m) >= 3:
            for i in range(len(m)):
                for j in range(i):
                    q = (m[j], m[i])
                    if all(a.kind == "sym" for a in q) and q not in pairs:
                        pairs.append(q)
    for q in pairs:
        y, r = {}, {}
        for m, c in d.items:
            l = list(m)
            if q[0] in l:
                l.remove(q[0])
                if q[1] in l:
                    l.remove(q[1])
                    y[tuple(l)] = c
                    continue
            r[m] = c
        A, B = _poly(y), _poly(r)
        s = P(q[0]) * P(q[1])
        for k in (0, 1, -1):
            Bk = B + s * k
            if ctx.entails(s - 1 - Bk) and ctx.entails(Bk + s - 1):
                return A - k, Bk
    return None


def solve(doms, e, r, ctx, kind):
    s = solve1(doms, e, r, ctx, kind)
    if s is None:
        # never equal
        d = e - r
        c = dom_ctx(ctx, doms)
        if c.entails(d - 1) or c.entails(-d - 1):
            return FALSE, {}
    return s


def solve1(doms, e, r, ctx, kind):
    """Solve e(vars)=r for the loop variables.  -> (cond, {var: poly}) or None."""
    d = e - r
    if not doms:
        if d is ZERO:
            return TRUE, {}
        rd = row_split(d, ctx)
        if rd is not None:
            return b_and(eq0(rd[0]), eq0(rd[1])), {}
        return eq0(d), {}
    vs = [v for v, _ in doms]
    Ns = {v: N for v, N in doms}
    asg = {}
    cond = TRUE
    invars = [v for v in vs if v in e.fv]
    # variables that do not occur: last iteration wins (stores only)
    for v in vs:
        if v not in e.fv:
            if kind == "acc":
                return None
            asg[v] = Ns[v] - 1
            cond = b_and(cond, ge0(Ns[v] - 1))
    from .prover import lin_coef_poly
    coefs = {}
    for v in invars:
        lc = lin_coef_poly(d, v)
        if lc is None:
            return None
        coefs[v] = lc[0]
    consts = [v for v in invars if coefs[v].const() is not None]
    syms = [v for v in invars if coefs[v].const() is None]
    if len(consts) > 1 or len(syms) > 1:
        return None
    if syms:
        v = syms[0]
        s = coefs[v].atom()
        if s is None:
            s = (-coefs[v]).atom()
        if s is None:
            if len(coefs[v].items) != 1 or coefs[v].items[0][1] not in (1, -1):
                return None
            s = coefs[v].items[0][0]
        ye, re = split_by(e, s)
        yr, rr = split_by(r, s)
        if ye is None or yr is None:
            return None
        c = dom_ctx(ctx, doms)
        diff = re - rr
        y = ye - yr
        sp = _poly({s: 1}) if isinstance(s, tuple) else P(s)
        for k in (0, 1, -1):
            dk = diff + k * sp
            if c.entails(sp - 1 - dk) and c.entails(dk + sp - 1):
                diff = dk
                y = y - k
                break
        else:
            # rows without gaps: element D belongs to row D/s, column D mod s
            if len(consts) == 1 and coefs[consts[0]].const() == 1 and Ns[consts[0]] - sp is ZERO and ctx.entails(sp - 1):
                x = consts[0]
                z = T.Sub({v: ZERO, x: ZERO})
                D = r - z.poly(e)
                flat = [m for m, q in D.items if m]
                if len(D.items) <= 2 and len(flat) == 1 and len(flat[0]) == 1 and flat[0][0].kind == "sym" and dict(D.items)[flat[0]] == 1 and coefs[v] - sp is ZERO and ctx.entails(D) and not any(w in D.fv for w in vs):
                    q = T.div(D, sp)
                    asg[v] = q
                    asg[x] = D - sp * q
                    cond = b_and(cond, ge0(ctx.simp(T.Sub({x: asg[x]}).poly(Ns[v]) - 1 - q)))
                    return cond, asg
            return None
        cy = lin_coef_poly(y, v)
        k = cy[0].const()
        if k not in (1, -1):
            return None
        asg[v] = -cy[1] * k
        rest = diff
    else:
        rest = d
        rd = row_split(d, dom_ctx(ctx, doms))
        if rd is not None and not any(v in rd[0].fv for v in vs):
            cond = b_and(cond, eq0(rd[0]))
            rest = rd[1]
    if consts:
        v = consts[0]
        k = coefs[v].const()
        q = rest - k * P(v)
        if k in (1, -1):
            asg[v] = -q * k
        else:
            return None
    else:
        cond = b_and(cond, eq0(rest))
    sb = T.Sub(dict(asg))
    for v in invars:
        a = asg[v]
        N = sb.poly(Ns[v])
        cond = b_and(cond, b_and(ge0(a), ge0(N - 1 - a)))
    return cond, asg


def split_by(p, s):
    """p = Y*s + R, Y and R free of s (an atom, or a monomial)"""
    y, r = {}, {}
    if isinstance(s, tuple):
        for m, c in p.items:
            l = list(m)
            if all(x in l for x in s):
                for x in s:
                    l.remove(x)
                y[tuple(l)] = c
            else:
                if any(a.kind != "sym" and any(x in a.fv for x in s) for a in m):
                    return None, None
                r[m] = c
        return _poly(y), _poly(r)
    for m, c in p.items:
        n = m.count(s)
        if n == 0:
            for a in m:
                if s in a.fv:
                    return None, None
            r[m] = c
        elif n == 1:
            l = list(m)
            l.remove(s)
            y[tuple(l)] = c
        else:
            return None, None
    return _poly(y), _poly(r)
