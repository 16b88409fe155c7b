"""The image operators: how each is called, and what its output pixels are defined to be.

Every operator gives a Case: the evaluated entry plus its images and closed-form specification.
The properties about definition, staleness, frame, bounds and shape rejection all use this table."""
from checks.imgops import *


class Case:
    def __init__(self, s, r, ins, outs, spec=None, work=(), pre=None, ret=None, W=None, H=None, regions=None):
        self.s, self.r, self.ins, self.outs, self.work = s, r, list(ins), list(outs), list(work)
        self.spec, self.pre, self.ret = spec, pre, ret
        self.W, self.H = W, H
        self.regions = regions or {}
        if pre is not None:
            r.pre = pre


class Inter(Img):
    """interleaved image"""

    def __init__(self, s, name, pix, W, H, B, sub=True, **kw):
        self.s, self.name, self.pix, self.W, self.H, self.B = s, name, pix, P(W), P(H), P(B)
        self.cls = "Interleaved<%s>" % CPP[pix]
        st = s.s(name + ".stride", 0)
        self.stride = st
        s.ctx.add_ge(st - self.W * self.B)
        self.offset = s.s(name + ".offset", 0)
        dl = s.s(name + ".data_length", 0)
        self.data = name + ".data"
        s.array(self.data, pix, dl)
        self.ptr = s.obj(name, self.cls, {"width": self.W, "height": self.H, "offset": self.offset, "stride": st, "num_bands": self.B,
                                          "data_length": dl, "data": mkptr(self.data), "subimage": 1 if sub else 0})
        self.ety = s.ev.roots[self.data].ety
        self.isint = pix[0] != "F"

    def pxb(self, x, y, b):
        return T.read(mkarr("init", self.data), self.offset + y * self.stride + x * self.B + b, self.ety, self.isint)


def out_image(s, kind, name, pix, W, H):
    if SHAPE[0] in ("view", "owned") and name == "o":
        W2, H2 = s.s("o.W2", 0), s.s("o.H2", 0)
        if SHAPE[0] == "view":
            return Img(s, name, pix, W2, H2, sub=True)
        o = Img(s, name, pix, W2, H2, stride=W2, offset=0)
        s.ctx.add_ge(o.field(s.st, "data_length") - W2 * H2)
        return o
    if kind == "same":
        return Img(s, name, pix, W, H, sub=True)
    if kind == "fresh":
        return Img(s, name, pix, 0, 0, stride=0, offset=0, length=0)
    W2, H2 = s.s(name + ".W2"), s.s(name + ".H2", 1)
    s.ctx.add_ge(W2 - W - 1)
    o = Img(s, name, pix, W2, H2, stride=W2, offset=0)
    s.ctx.add_ge(o.field(s.st, "data_length") - W * H)
    return o


LO = [1]


def dims(s, lo=None):
    lo = LO[0] if lo is None else lo
    return s.s("W", lo), s.s("H", lo)


OPS = {}


def op(name, driver, kinds=("same", "fresh", "larger")):
    def deco(f):
        OPS[name] = (driver, f, kinds)
        return f
    return deco


# ------------------------------------------------------------------ fills, conversion, logic, thresholds
def mk_fill(pix):
    def f(w, kind):
        s = Setup(w)
        W, H = dims(s)
        a = Img(s, "a", pix, W, H, sub=True) if kind == "same" else owned(s, "a", pix, W, H)
        v = scalar(s, "v", pix)
        r = Run(s, "fill_" + pix, [a.ptr, v])
        return Case(s, r, [], [a], lambda X, Y: v, W=W, H=H)
    return f


def owned(s, name, pix, W, H):
    return Img(s, name, pix, W, H, stride=W, offset=0)


def scalar(s, name, pix):
    """a value of the pixel type"""
    p = s.s(name)
    k, n = PIX[pix][:2]
    if k == "f":
        return T.sym(name, isint=False)
    lo, hi = (0, (1 << n) - 1) if k == "u" else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
    s.ctx.add_ge(p - lo)
    s.ctx.add_ge(P(hi) - p)
    return p


def fscalar(s, name):
    p = T.sym(name, isint=False)
    if p.atom() not in s.syms:
        s.syms.append(p.atom())
    return p


def val(s, name, pix):
    return fscalar(s, name) if pix[0] == "F" else scalar(s, name, pix)


def mk_fillb(pix):
    def f(w, kind):
        s = Setup(w)
        W, H = dims(s)
        a = Img(s, "a", pix, W, H, sub=True)
        v = val(s, "v", pix)
        rad = s.s("r", 0)
        r = Run(s, "fillb_" + pix, [a.ptr, v, rad])

        def spec(X, Y):
            inner = b_and(b_and(ge0(X - rad), ge0(W - 1 - rad - X)), b_and(ge0(Y - rad), ge0(H - 1 - rad - Y)))
            return ite(inner, a.px(X, Y), v)
        return Case(s, r, [], [a], spec, W=W, H=H)
    return f


def mk_filli(pix):
    def f(w, kind):
        s = Setup(w)
        W, H = dims(s)
        B = s.s("B", 1)
        a = Inter(s, "a", pix, W, H, B)
        v = val(s, "v", pix)
        r = Run(s, "filli_" + pix, [a.ptr, v])
        c = Case(s, r, [], [], None, W=W, H=H)
        c.inter = (a, v, B)
        return c
    return f


def mk_stat(name, pix):
    def f(w, kind):
        s = Setup(w)
        W, H = dims(s)
        a = Img(s, "a", pix, W, H, sub=True) if kind == "same" else owned(s, "a", pix, W, H)
        r = Run(s, "%s_%s" % (name, pix), [a.ptr])
        i, j = T.fresh("p"), T.fresh("q")
        px = a.px(P(j), P(i))
        if name in ("min", "max"):
            lo, hi = LIMITS[pix]
            e = P(hi if name == "min" else lo)
            spec = T.red(name, i, H, e, T.red(name, j, W, e, px))
        else:
            spec = T.ssum(i, H, T.ssum(j, W, px))
            if name == "mean":
                spec = spec * T.inv(W * H) if pix[0] == "F" else T.div(spec, W * H)
        return Case(s, r, [a], [], None, ret=spec, W=W, H=H)
    return f


FLT_MAX = 340282346638528859811704183484516925440
LIMITS = {"U8": (0, 255), "S16": (-32768, 32767), "S32": (-(1 << 31), (1 << 31) - 1), "F32": (-FLT_MAX, FLT_MAX)}


def hist_array(s, name, n):
    """GrowArray<uint32_t> of n elements"""
    if SUFFIX[0] and name in OUTNAMES:
        name += SUFFIX[0]
    cap = s.s(name + ".capacity", 0)
    s.ctx.add_ge(cap - n)
    s.array(name + ".data", "U32", cap, heap="_Znam")
    return s.obj(name, "GrowArray<unsigned int>", {"data": mkptr(name + ".data"), "size": P(n), "array_length": cap, "can_resize": 1})


def covers(a, m, n):
    """precondition: the pixels of a lie in [m, m+n)"""
    def pre(it):
        W, H, o, st = (it.toint(it.poly(z)) for z in (a.W, a.H, a.offset, a.stride))
        mm, nn = it.poly(m), it.toint(it.poly(n))
        return all(0 <= it.represent(it.init_value(a.data, o + y * st + x, None), a.ety) - mm < nn for y in range(H) for x in range(W))
    return pre


def mk_hist(pix):
    def f(w, kind):
        s = Setup(w)
        W, H = dims(s)
        a = Img(s, "a", pix, W, H, sub=True) if kind == "same" else owned(s, "a", pix, W, H)
        m = val(s, "m", pix)
        n = s.s("n", 1, 1 << 16)
        h = hist_array(s, "h", n)
        r = Run(s, "hist_" + pix, [a.ptr, m, h])
        c = Case(s, r, [a], [], None, W=W, H=H, pre=covers(a, m, n))
        c.hist = (a, m, n)
        return c
    return f


def mk_avg(pix):
    def f(w, kind):
        s = Setup(w)
        W, H = dims(s)
        B = s.s("B", 1)
        a = Inter(s, "a", pix, W, H, B)
        o = out_image(s, kind, "o", pix, W, H)
        r = Run(s, "avg_" + pix, [a.ptr, o.ptr])

        def spec(X, Y):
            b = T.fresh("q")
            t = T.ssum(b, B, a.pxb(X, Y, P(b)))
            return t * T.inv(B) if pix[0] == "F" else T.div(t, B)
        return Case(s, r, [a], [o], spec, W=W, H=H)
    return f


def mk_thr(pix, entry="thr"):
    def f(w, kind):
        s = Setup(w)
        W, H = dims(s)
        a = Img(s, "a", pix, W, H, sub=True)
        o = out_image(s, kind, "o", "U8", W, H)
        t = val(s, "t", pix)
        d = s.s("down", 0, 1)
        if entry == "thr":
            r = Run(s, "thr_" + pix, [a.ptr, t, d, o.ptr])
        else:
            fl = s.obj("f", "GlobalFixedBinaryFilter<%s>" % CPP[pix], {"threshold": t, "down": d})
            r = Run(s, "gthr_" + pix, [fl, a.ptr, o.ptr])

        def spec(X, Y):
            below = (ge0 if pix[0] != "F" else rge0)(t - a.px(X, Y))
            return ite(eq0(d - 1), b_poly(below), ONE - b_poly(below))
        return Case(s, r, [a], [o], spec, W=W, H=H)
    return f


def rge0(p):
    return b_not(gt0r(-p))


def mk_logic(name):
    def f(w, kind):
        s = Setup(w)
        W, H = dims(s)
        a = Img(s, "a", "U8", W, H, sub=True)
        if SHAPE[0] == "inputs":
            b = Img(s, "b", "U8", s.s("o.W2", 0), s.s("o.H2", 0), sub=True)
        else:
            b = Img(s, "b", "U8", W, H, sub=True)
        if kind == "alias":
            r = Run(s, name, [a.ptr, b.ptr, a.ptr])
            o = a
        elif kind == "aliasb":
            r = Run(s, name, [a.ptr, b.ptr, b.ptr])
            o = b
        else:
            o = out_image(s, kind, "o", "U8", W, H)
            r = Run(s, name, [a.ptr, b.ptr, o.ptr])

        def spec(X, Y):
            p, q = b_not(eq0(a.px(X, Y))), b_not(eq0(b.px(X, Y)))
            return b_poly(b_and(p, q) if name == "land" else b_or(p, q))
        return Case(s, r, [x for x in (a, b) if x is not o], [o], spec, W=W, H=H)
    return f


def mk_morph(name):
    def f(w, kind):
        s = Setup(w)
        W, H = dims(s)
        a = Img(s, "a", "U8", W, H, sub=True)
        o = out_image(s, kind, "o", "U8", W, H)
        r = Run(s, name, [a.ptr, o.ptr])

        def spec(X, Y):
            tot = a.px(X, Y)
            for dx, dy in ((1, 0), (-1, 0), (0, 1), (0, -1)):
                tot = tot + b_poly(inside(a, X + dx, Y + dy)) * a.px(X + dx, Y + dy)
            return b_poly(eq0(tot - 5) if name == "erode" else ge0(tot - 1))
        return Case(s, r, [a], [o], spec, W=W, H=H)
    return f


for _p in ("U8", "S16", "S32", "F32"):
    OPS["fill_" + _p] = ("pix", mk_fill(_p), ("same", "owned"))
    OPS["fillb_" + _p] = ("pix", mk_fillb(_p), ("same",))
    OPS["filli_" + _p] = ("pix", mk_filli(_p), ("same",))
    OPS["avg_" + _p] = ("pix", mk_avg(_p), ("same", "fresh", "larger"))
    for _n in ("min", "max", "sum", "mean"):
        OPS["%s_%s" % (_n, _p)] = ("pix", mk_stat(_n, _p), ("same", "owned"))
for _p in ("U8", "S16", "F32"):
    OPS["thr_" + _p] = ("pix", mk_thr(_p), ("same", "fresh", "larger"))
    OPS["gthr_" + _p] = ("pix", mk_thr(_p, "gthr"), ("same", "fresh", "larger"))
for _p in ("U8", "S16"):
    OPS["hist_" + _p] = ("pix", mk_hist(_p), ("same", "owned"))
for _n in ("land", "lor"):
    OPS[_n] = ("pix", mk_logic(_n), ("same", "fresh", "larger", "alias", "aliasb"))
for _n in ("erode", "dilate"):
    OPS[_n] = ("pix", mk_morph(_n), ("same", "fresh", "larger"))


# ------------------------------------------------------------------ generic obligations
def case(ws, name, kind):
    d, f, _ = OPS[name]
    c = f(ws[d], kind)
    c.name, c.kind = name, kind
    return c


def definition(ws, name, kind):
    """every pixel of the output (and the returned value) equals the definition"""
    key = "%s/%s" % (name, kind)
    c = case(ws, name, kind)
    r = c.r
    out = [r.returns(key + "/returns")]
    if c.ret is not None:
        out.append(r.decide(r.ret, c.ret, "returned value", key=key + "/value", pre=c.pre, loc=entry_loc(c)))
    if getattr(c, "inter", None):
        a, v, B = c.inter
        X, Y, Z = r.var("X", 0, c.W - 1), r.var("Y", 0, c.H - 1), r.var("Z", 0, B - 1)
        got = arrays.resolve_read(r.ev.get_arr(r.st, a.data), a.offset + Y * a.stride + X * B + Z, a.ety, a.isint, r.ctx)
        w_ = r.writes_at(a.data)
        out.append(r.decide(got, v, "element (X,Y,Z)", key=key + "/pixel", loc=w_[0] if w_ else None))
    if getattr(c, "hist", None):
        a, m, n = c.hist
        k = r.var("k", 0, n - 1)
        got = arrays.resolve_read(r.ev.get_arr(r.st, "h.data"), k, ("u", 32), True, r.ctx)
        i, j = T.fresh("p"), T.fresh("q")
        want = T.ssum(i, c.H, T.ssum(j, c.W, b_poly(eq0(a.px(P(j), P(i)) - m - k))))
        w_ = r.writes_at("h.data")
        out.append(r.decide(got, want, "bin k", key=key + "/bin", loc=w_[-1] if w_ else None))
    if c.spec is not None:
        o = c.outs[0]
        out.append(r.decide(o.field(r.st, "width"), c.W, "output width", key=key + "/width"))
        out.append(r.decide(o.field(r.st, "height"), c.H, "output height", key=key + "/height"))
        X, Y = r.var("X", 0, c.W - 1), r.var("Y", 0, c.H - 1)
        got = o.final(r.st, X, Y, r.ctx)
        w_ = r.writes_at(o.data)
        out.append(r.decide(got, c.spec(X, Y), "output pixel (X,Y)", loc=w_[0] if w_ else entry_loc(c), key=key + "/pixel", pre=c.pre))
    return out


def entry_loc(c):
    """first line of the library function the entry calls"""
    for f in c.r.ev.functions:
        pass
    return None


def def_obs(ws, names):
    obs = []
    for n in names:
        for k in OPS[n][2]:
            obs.append(Ob("%s/%s" % (n, k), definition, ws, n, k))
    return obs


from checks.common import Ob
