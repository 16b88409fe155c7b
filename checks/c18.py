"""Kernel factory and kernel container."""
from checks.data import *
from checks.texts import *
from fractions import Fraction
TECHNIQUE = T_FORM
RULE = rule("For every factory function, element type and symbolic width, sigma and tolerance: width, anchor, number of coefficients and coefficient i "
            "of the kernel = the definition (tables and means equal, Gaussian = exp(-d^2/2s^2) at the distance from the anchor, normalised by the sum of "
            "all coefficients, integer conversion divides by the larger of the smallest magnitude and the largest magnitude times the tolerance); "
            "the same for constructors, reshape and the sum and extreme values of a kernel.")
NOTE = NOTE_FORM
ASSUMPTIONS = ASSUME[:1] + ["kernels hold at most 2^28 coefficients"] + ASSUME[3:4]
LEVEL = "other"
DRIVERS = ["data"]
W1, W2 = 1 << 27, 1 << 13


class Ker:
    def __init__(self, s, name, pix, dim, raw=False, width=None, offset=None):
        self.s, self.name, self.pix, self.dim = s, name, pix, dim
        self.cls = "Kernel%dD<%s>" % (dim, CPPT[pix])
        self.ety = PIX[pix][0], PIX[pix][1]
        self.isint = pix[0] != "F"
        self.data = name + ".data"
        if raw:
            self.ptr = s.obj(name, self.cls, {})
        else:
            self.w, self.o = width, offset
            self.ptr = s.kernel(name, CPPT[pix], width, offset, dim=dim)
            s.st.cells[(name, s.offset(self.cls, "data.default_value"))] = ZERO

    def init(self, i):
        return T.read(mkarr("init", self.data), P(i), self.ety, self.isint)

    def f(self, st, n):
        return self.s.get(st, self.name, self.cls, n)

    def el(self, st, i, ctx):
        return read_ptr(self.s, st, self.f(st, "data.data"), P(i), self.ety, self.isint, ctx)


def post(r, k, key, width, offset, el, note="", ctx=None):
    """kernel afterwards: width, anchor, count, coefficient"""
    s = r.s
    ctx = ctx or (r.ctx if r.g is TRUE else r.ctx.with_bdd(r.g))
    n = width if k.dim == 1 else width * width
    out = [r.decide(k.f(r.st, "width"), width, "kernel width", key=key + "/width", ctx=ctx),
           r.decide(k.f(r.st, "offset"), offset, "kernel anchor", key=key + "/anchor", ctx=ctx),
           r.decide(k.f(r.st, "data.size"), n, "number of coefficients", key=key + "/count", ctx=ctx)]
    if el is None:
        return out
    ec = ctx.child()
    loc = None
    if k.dim == 1:
        i = T.sym("i")
        r.syms.append(i.atom())
        ec.add_ge(i)
        ec.add_ge(width - 1 - i)
        got = k.el(r.st, i, ec)
        want = el(i, ec)
    else:
        x, y = T.sym("x"), T.sym("y")
        for v in (x, y):
            r.syms.append(v.atom())
            ec.add_ge(v)
            ec.add_ge(width - 1 - v)
        got = k.el(r.st, y * width + x, ec)
        want = el(x, y, ec)
    out.append(r.decide(got, want, "coefficient", key=key + "/coefficient", ctx=ec, loc=loc))
    return out


def o_table(w, fn, pix):
    s = Setup(w)
    k = Ker(s, "k", pix, 1, raw=True)
    n = s.s("w", 1, W1)
    key = "%s_%s" % (fn, pix)
    r = Run(s, key, [k.ptr, n])
    want = ONE if fn == "f_table" or pix[0] != "F" else T.inv(n)
    return [r.returns(key + "/returns")] + post(r, k, key, n, T.div(n, P(2)), lambda i, c: want)


def o_ctor(w, fn, pix):
    dim = int(fn[1])
    s = Setup(w)
    k = Ker(s, "k", pix, dim, raw=True)
    n = s.s("w", 1, W1 if dim == 1 else W2)
    key = "%s_%s" % (fn, pix)
    if fn.endswith("1"):
        r = Run(s, key, [k.ptr, n])
        o = T.div(n, P(2))
    else:
        o = s.s("o", 0)
        s.ctx.add_ge(n - 1 - o)
        r = Run(s, key, [k.ptr, n, o])
    return [r.returns(key + "/returns")] + post(r, k, key, n, o, lambda *a: ZERO)


def o_list(w, pix):
    s = Setup(w)
    k = Ker(s, "k", pix, 1, raw=True)
    n = s.s("w", 1, W1)
    o = s.s("o", 0)
    s.ctx.add_ge(n - 1 - o)
    p = s.array("lst", pix, n)
    key = "k1_list_%s" % pix
    r = Run(s, key, [k.ptr, o, p, n])
    return [r.returns(key + "/returns")] + post(r, k, key, n, o, lambda i, c: T.read(mkarr("init", "lst"), i, k.ety, k.isint))


def kernel(s, name, pix, dim):
    n = s.s(name + ".w", 1, W1 if dim == 1 else W2)
    o = s.s(name + ".o", 0)
    s.ctx.add_ge(n - 1 - o)
    return Ker(s, name, pix, dim, width=n, offset=o)


def o_sum(w, pix):
    s = Setup(w)
    k = kernel(s, "k", pix, 1)
    r = Run(s, "k1_sum_%s" % pix, [k.ptr])
    j = T.fresh("q")
    return [r.returns("k1_sum_%s/returns" % pix), r.decide(r.ret, T.ssum(j, k.w, k.init(P(j))), "sum of the coefficients", key="k1_sum_%s/value" % pix), r.unchanged(k.data, "k1_sum_%s/frame" % pix)]


def o_norm(w, dim, pix):
    s = Setup(w)
    k = kernel(s, "k", pix, dim)
    key = "f_norm%d_%s" % (dim, pix)
    r = Run(s, key, [k.ptr])
    n = k.w if dim == 1 else k.w * k.w
    j = T.fresh("q")
    tot = T.ssum(j, n, k.init(P(j)))
    f = lambda i: k.init(i) if pix[0] != "F" else k.init(i) * T.inv(tot)
    return [r.returns(key + "/returns")] + post(r, k, key, k.w, k.o, (lambda i, c: f(i)) if dim == 1 else (lambda x, y, c: f(y * k.w + x)))


def o_ext(w, fn, pix):
    """extreme values: at least (at most) every coefficient, and one of them"""
    s = Setup(w)
    k = kernel(s, "k", pix, 1)
    key = "k1_%s_%s" % (fn, pix)
    r = Run(s, key, [k.ptr])
    return [r.returns(key + "/returns"), r.decide(r.ret, ext(s, k, fn), "extreme value", key=key + "/value"), r.unchanged(k.data, key + "/frame")]


def absv(x):
    c = ge0(x) if x.isint else b_not(T.gt0r(-x))
    return ite(c, x, -x)


def ext(s, k, fn, n=None):
    f = (lambda v: absv(v)) if fn[0] == "a" else (lambda v: v)
    j = T.fresh("q")
    return T.red(fn[-3:], j, (k.w if n is None else n) - 1, f(k.init(0)), f(k.init(P(j) + 1)))


C_PDF = Fraction(*(2.5066282746310).as_integer_ratio())
F45 = Fraction(4, 5)


def pdf(sig, x):
    return app("exp", -x * x * T.inv(sig * sig * 2)) * T.inv(sig * C_PDF)


def app(f, *a):
    return T.app(f, *a)


def o_pdf(w):
    s = Setup(w)
    m, sg, x = (val(s, n, "F64") for n in ("mean", "sigma", "sample"))
    r = Run(s, "f_pdf", [m, sg, x])
    return [r.returns("f_pdf/returns"), r.decide(r.ret, pdf(sg, x - m), "density", key="f_pdf/value")]


def o_sigma(w):
    s = Setup(w)
    q = val(s, "radius", "F64")
    o = s.s("order", 0, 100)
    r = Run(s, "f_sigma", [q, o])
    c = r.ctx.with_bdd(T.gt0r(q))
    return [r.returns("f_sigma/returns", expect=b_poly(T.gt0r(q))), r.decide(r.ret, (q * 2 + 1) * T.inv(o * F45 + 5), "sigma for a radius", key="f_sigma/value", ctx=c)]


def o_radius(w):
    s = Setup(w)
    q = val(s, "sigma", "F64")
    o = s.s("order", 0, 100)
    r = Run(s, "f_radius", [q, o])
    c = r.ctx.with_bdd(T.gt0r(q))
    return [r.returns("f_radius/returns", expect=b_poly(T.gt0r(q))),
            r.decide(r.ret, toint(app("ceil", ((o * F45 + 5) * q - 1) * Fraction(1, 2))), "radius for a sigma", key="f_radius/value", ctx=c)]


def toint(x):
    return ftoi(32, True, x)


def weights(sig, W):
    """unnormalised Gaussian coefficient i of a kernel of width W"""
    half = T.div(W, P(2))
    adj = ite(T.eq0(W - half * 2 - 1), ZERO, P(Fraction(1, 2)))
    return lambda i: app("exp", -(P(i) - half + adj) * (P(i) - half + adj) * T.inv(sig * sig * 2)) * T.inv(sig * C_PDF)


def gcase(s, case):
    """sigma, width arguments and the effective sigma and width"""
    sg = val(s, "sigma", "F64")
    if case == "both":
        s.ctx = s.ctx.with_bdd(T.gt0r(sg))
        n = s.s("w", 1, W2)
        return sg, n, sg, n
    if case == "width":
        s.ctx = s.ctx.with_bdd(b_not(T.gt0r(sg)))
        n = s.s("w", 2, W2)
        return sg, n, (T.div(n, P(2)) * 2 + 1) * Fraction(1, 5), n
    s.ctx = s.ctx.with_bdd(T.gt0r(sg))
    n = s.s("w", -W2, 0)
    R = toint(app("ceil", (sg * 5 - 1) * Fraction(1, 2)))
    s.ctx.add_ge(R)
    s.ctx.add_ge(P(W2) - R)
    return sg, n, sg, R * 2 + 1


def o_gauss(w, dim, pix, case):
    s = Setup(w)
    k = Ker(s, "k", pix, dim, raw=True)
    sg, n, sig, W = gcase(s, case)
    key = "f_gauss%d_%s/%s" % (dim, pix, case)
    r = Run(s, "f_gauss%d_%s" % (dim, pix), [k.ptr, sg, n])
    g = weights(sig, W)
    j = T.fresh("q")
    tot = T.ssum(j, W, g(P(j)))
    f = lambda i: g(P(i)) * T.inv(tot)
    if dim == 1:
        el = lambda i, c: f(i)
    else:
        j = T.fresh("q")
        tot2 = T.ssum(j, W * W, f(T.div(P(j), W)) * f(P(j) - T.div(P(j), W) * W))
        el = lambda x, y, c: f(x) * f(y) * T.inv(tot2)
    if pix == "S32":
        h = f if dim == 1 else (lambda q: f(T.div(q, W)) * f(q - T.div(q, W) * W) * T.inv(tot2))
        N = W if dim == 1 else W * W
        j, i = T.fresh("q"), T.fresh("q")
        lo = T.red("min", j, N - 1, absv(h(ZERO)), absv(h(P(j) + 1)))
        hi = T.red("max", i, N - 1, absv(h(ZERO)), absv(h(P(i) + 1))) * Fraction(1, 100)
        den = ite(T.gt0r(hi - lo), hi, lo)
        el0 = el
        el = lambda *a: toint(el0(*a) * T.inv(den))
    if dim == 2 and case == "sigma":
        el = None       # coefficients: the two other cases
    return [r.returns(key + "/returns")] + post(r, k, key, W, T.div(W, P(2)), el)


def o_toint(w, dim):
    s = Setup(w)
    k = Ker(s, "k", "S32", dim, raw=True)
    o = kernel(s, "o", "F64", dim)
    m = val(s, "frac", "F64")
    key = "f_toint%d" % dim
    r = Run(s, key, [k.ptr, o.ptr, m])
    n = o.w if dim == 1 else o.w * o.w
    lo, hi = ext(s, o, "amin", n), ext(s, o, "amax", n) * m
    d = ite(T.gt0r(hi - lo), hi, lo)
    f = lambda i: toint(o.init(i) * T.inv(d))
    return [r.returns(key + "/returns"), r.unchanged(o.data, key + "/frame")] + post(r, k, key, o.w, o.o, (lambda i, c: f(i)) if dim == 1 else (lambda x, y, c: f(y * o.w + x)))


def obligations(ws, tier):
    w = ws["data"]
    obs = []
    for pix in ("S32", "F32", "F64"):
        for fn in ("f_table", "f_mean"):
            obs.append(Ob("%s_%s" % (fn, pix), o_table, w, fn, pix))
        for fn in ("k1_ctor", "k1_ctor1", "k2_ctor", "k2_ctor1"):
            obs.append(Ob("%s_%s" % (fn, pix), o_ctor, w, fn, pix))
        obs.append(Ob("k1_list_%s" % pix, o_list, w, pix))
        obs.append(Ob("k1_sum_%s" % pix, o_sum, w, pix))
        for fn in ("max", "min", "amax", "amin"):
            obs.append(Ob("k1_%s_%s" % (fn, pix), o_ext, w, fn, pix))
        for d in (1, 2):
            obs.append(Ob("f_norm%d_%s" % (d, pix), o_norm, w, d, pix))
            for case in ("both", "width", "sigma"):
                obs.append(Ob("f_gauss%d_%s/%s" % (d, pix, case), o_gauss, w, d, pix, case, timeout=150))
    for d in (1, 2):
        obs.append(Ob("f_toint%d" % d, o_toint, w, d))
    obs += [Ob("f_pdf", o_pdf, w), Ob("f_sigma", o_sigma, w), Ob("f_radius", o_radius, w)]
    return obs
