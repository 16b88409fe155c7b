"""Memory-access obligations of an evaluated entry: every load/store recorded by the evaluator must
stay inside the object it addresses."""
import random
from .terms import *
from . import terms as T
from .arrays import split_by
from .interp import Undefined, sample, constants
from .check import SPANS, describe, next_gate, gate_cases


def events(tr, guards=(), loops=(), approx=False):
    for e in tr:
        if e[0] == "g":
            if e[1] is FALSE:
                continue
            yield from events(e[2], guards + ((e[1],) if e[1] is not TRUE else ()), loops, approx)
        elif e[0] in ("loop", "approxloop"):
            yield from events(e[3], guards, loops + ((e[1], e[2]),), approx or e[0] == "approxloop")
        else:
            yield e, guards, loops, approx


class Region:
    """allowed index set of an array root: the pixels of an image, or [0,length)"""

    def __init__(self, length=None, images=(), zero=None):
        self.length, self.images, self.zero = length, images, zero

    def prove(self, idx, ctx, depth=0):
        """idx inside the region under the facts; case split on the gates of idx"""
        if depth == 0:
            c = ctx.child()
            for f in ctx.facts():
                if any(x.kind == "ind" for x in f.atoms()):
                    g = c.simp(f)
                    if g is not f:
                        c.add_ge(g)
            ctx = c
            for a, b in set(tuple(m) for f in ctx.facts() for m, k in f.items if len(m) == 2 and m[0].kind == "sym" and m[1].kind == "sym"):
                if ctx.entails(P(a) - 1) and ctx.entails(P(b) - 1):
                    ctx.add_ge((P(a) - 1) * (P(b) - 1))
        idx = ctx.simp(idx)
        if self.prove1(idx, ctx):
            return True
        if depth > 9:
            return False
        a = next_gate(idx, ctx, free=True)
        if a is None:
            return False
        for pol, c in gate_cases(a, ctx):
            if not self.prove(idx, c, depth + 1):
                return False
        return True

    def prove_under(self, idx, g, ctx, depth=0):
        """inside whenever the gate g holds"""
        if ctx.dead or ctx.entails(P(-1)):
            return True
        g = ctx.bdd_value(g)
        if g is FALSE:
            return True
        if g is TRUE or depth > 8:
            return self.prove(idx, ctx)
        for pol, sub in ((True, g.hi), (False, g.lo)):
            if sub is FALSE:
                continue
            c = ctx.child()
            c.add_lit(g.var, pol)
            if not self.prove_under(idx, sub, c, depth + 1):
                return False
        return True

    def prove1(self, idx, ctx):
        for off, stride, W, H in self.images:
            d = idx - off
            y = None
            if stride.const() is None and stride.atom() is not None:
                y, x = split_by(d, stride.atom())
            if y is None:
                continue
            y, x = ctx.simp(y), ctx.simp(x)
            for k in (0, 1, -1):
                yk, xk = y + k, x - stride * k
                if ctx.entails(xk) and ctx.entails(W - 1 - xk) and ctx.entails(yk) and ctx.entails(H - 1 - yk):
                    return True
        for off, stride, W, H in self.images:
            if ctx.simp(stride - W) is ZERO:
                d = ctx.simp(idx - off)
                if ctx.entails(d) and ctx.entails(W * H - 1 - d):
                    return True
        if self.length is not None:
            if ctx.entails(idx) and ctx.entails(self.length - 1 - idx):
                return True
            # rows of a dense image: length = s*n, idx = s*y + x
            for s in set(a for m, c in self.length.items if len(m) > 1 for a in m if a.kind == "sym"):
                n, rest = split_by(self.length, s)
                y, x = split_by(idx, s)
                if n is None or y is None or rest is not ZERO:
                    continue
                y, x = ctx.simp(y), ctx.simp(x)
                for k in (0, 1, -1):
                    yk, xk = y + k, x - P(s) * k
                    if ctx.entails(xk) and ctx.entails(P(s) - 1 - xk) and ctx.entails(yk) and ctx.entails(n - 1 - yk):
                        return True
        return False

    def inside(self, it, idx):
        v = it.toint(it.poly(idx))
        for off, stride, W, H in self.images:
            o, s, w, h = (it.toint(it.poly(z)) for z in (off, stride, W, H))
            d = v - o
            if d < 0:
                continue
            if s == 0:
                if h >= 1 and d < w:
                    return True
                continue
            # unique decomposition only when stride >= width
            if d % s < w and d // s < h:
                return True
        if self.images:
            return False
        n = it.toint(it.poly(self.length))
        return 0 <= v < n


def check_accesses(setup, trace, regions, rng, kinds=("ld", "st"), tests=40, limit=4000, pre=None):
    """-> list of (event, status, witness) grouped by source location"""
    res = {}
    seen = set()
    for e, guards, loops, approx in events(trace):
        if e[0] not in kinds:
            continue
        _, root, idx, ctx, loc, g = e
        if root not in regions:
            continue
        key = (e[0], root, idx, id(ctx), g.id)
        if key in seen:
            continue
        seen.add(key)
        rg = regions[root]
        rec = res.setdefault((e[0], root, loc), {"n": 0, "proved": 0, "bad": None, "open": 0})
        rec["n"] += 1
        if rec["bad"] is not None:
            continue
        c = ctx if g is TRUE else ctx.with_bdd(g)
        for gg in guards:
            for a, pol in b_literals(gg):
                if a not in c.lits and not (a.fv & frozenset(x for x in a.fv if x.kind == "bv")):
                    c = c.with_bdd(b_lit(a, pol))
        if c.dead or rg.prove(c.simp(idx), c) or c.entails(P(-1)) or rg.prove_under(idx, g, c):
            rec["proved"] += 1
            continue
        lv = []
        for v, n in loops:
            if v not in lv:
                lv.append(v)
        syms = list(setup.syms) + [v for v in lv if v not in setup.syms]
        bad = None
        miss = 0
        cs = constants(idx, g, list(guards), rg.length, [x for im in rg.images for x in im])
        for k in range(tests):
            sp = SPANS[k % len(SPANS)]
            it = sample(c, syms, rng, setup.ev.roots, spans={a.args[0]: sp for a in syms}, mode=(k // 5) % 4, tries=8,
                        consts=cs if k % 2 else ())
            if it is None:
                miss += 1
                if miss > 10 and miss > k // 2:
                    break
                continue
            try:
                if pre is not None and not pre(it):
                    continue
                if not it.bdd(g) or not all(it.bdd(x) for x in guards):
                    continue
                ok = True
                for v, n in loops:
                    i, N = it.env.get(v), it.toint(it.poly(n))
                    if i is None or not 0 <= i < N:
                        ok = False
                        break
                if not ok:
                    continue
                if not rg.inside(it, idx):
                    bad = (describe(it, syms), it.toint(it.poly(idx)))
                    break
            except Undefined:
                continue
        if bad is not None and not approx:
            rec["bad"] = bad
        else:
            rec["open"] += 1
    return res
