"""Entries over the data types: growable arrays, images, kernels."""
from checks.ops import *

SGN = {"U32": ("u", 32)}
CPPT = dict(CPP, U32="unsigned int")
CAP = 1 << 28


def read_ptr(s, st, p, idx, ety, isint, ctx):
    """element idx of the memory a pointer value refers to, in state st"""
    if not isinstance(p, Ptr):
        return None
    out = None
    for g, r, o in p.alts:
        c = ctx if g is TRUE else ctx.with_bdd(g)
        if c.dead:
            continue
        if r is None:
            return None
        root = s.ev.roots[r]
        oo = exact_div(o, P(root.esz or 1))
        v = arrays.resolve_read(s.ev.get_arr(st, r), c.simp(idx + oo), ety, isint, c)
        out = v if out is None else ite(g, v, out)
    return ctx.simp(out) if out is not None else None


def capacity(s, st, p, ctx, init, esz=None):
    """number of elements that fit behind pointer p (init: {root: length})"""
    if not isinstance(p, Ptr):
        return None
    out = None
    for g, r, o in p.alts:
        if r is None:
            v = ZERO
        else:
            root = s.ev.roots[r]
            n, e = root.length, root.esz or 1
            if n is None and esz and root.esz in (None, esz) and isinstance(root.info, Poly):
                n, e = exact_div(root.info, P(esz)), esz
            if n is None:
                return None
            v = P(n) - exact_div(o, P(e))
        out = v if out is None else ite(g, v, out)
    return out


def points_to(p, root):
    """indicator: pointer p points to the start of root"""
    if not isinstance(p, Ptr):
        return None
    out = ZERO
    for g, r, o in p.alts:
        if r == root and (o is ZERO or o == ZERO):
            out = out + (ONE if g is TRUE else b_poly(g))
    return out


class Grow:
    """a GrowArray parameter: symbolic size <= capacity"""

    def __init__(self, s, name, pix, resizable=1, raw=False):
        self.s, self.name, self.pix = s, name, pix
        self.cls = "GrowArray<%s>" % CPPT[pix]
        self.data = name + ".data"
        self.ety = PIX[pix][0], PIX[pix][1]
        self.isint = pix[0] != "F"
        if raw:
            self.ptr = s.obj(name, self.cls, {})
            return
        self.cap = s.s(name + ".array_length", 0, CAP)
        self.size = s.s(name + ".size", 0)
        s.ctx.add_ge(self.cap - self.size)
        s.array(self.data, pix, self.cap, heap="_Znam" if resizable == 1 else None)
        self.dv = val(s, name + ".default", pix)
        self.ptr = s.obj(name, self.cls, {"data": mkptr(self.data), "size": self.size, "array_length": self.cap,
                                          "default_value": self.dv, "can_resize": resizable})

    def init(self, i):
        return T.read(mkarr("init", self.data), P(i), self.ety, self.isint)

    def f(self, st, n):
        return self.s.get(st, self.name, self.cls, n)

    def el(self, st, i, ctx):
        return read_ptr(self.s, st, self.f(st, "data"), P(i), self.ety, self.isint, ctx)
