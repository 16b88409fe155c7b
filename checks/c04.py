"""Convolution with explicit borders equals its definition."""
from checks.imgops import *
from checks.texts import *
from checks.common import *

TECHNIQUE = T_FORM
RULE = rule('Output pixel (X,Y) of every convolution entry = sum over the kernel of coefficient times bordered source pixel.')
NOTE = NOTE_FORM
ASSUMPTIONS = ASSUME
LEVEL = "other"


def kernel(s, kcpp, dim):
    kw = s.s("kw", 1)
    ko = s.s("ko", 0)
    s.ctx.add_ge(kw - 1 - ko)
    k = s.kernel("k", kcpp, kw, ko, dim=dim)
    return k, kw, ko


def kval(s, i):
    r = s.ev.roots["k.data"]
    return T.read(mkarr("init", "k.data"), i, r.ety, r.ety[0] != "f")


def conv_spec(op, a, kw, ko, s, tap):
    """closed form of the definition at (X,Y)"""
    def f(X, Y):
        j = T.fresh("q")
        if op == "h":
            return T.ssum(j, kw, kval(s, P(j)) * tap(X - ko + P(j), Y))
        if op == "v":
            return T.ssum(j, kw, kval(s, P(j)) * tap(X, Y - ko + P(j)))
        i = T.fresh("p")
        return T.ssum(i, kw, T.ssum(j, kw, kval(s, P(i) * kw + P(j)) * tap(X - ko + P(j), Y - ko + P(i))))
    return f


def setup_conv(w, op, epix, rpix, out_kind):
    from checks.ops import dims
    s = Setup(w)
    W, H = dims(s)
    a = Img(s, "a", epix, W, H, sub=True)
    b = s.border("b", CPP[epix], a.ptr)
    k, kw, ko = kernel(s, CPP[SIGNED[epix]], 2 if op == "2" else 1)
    if out_kind == "same":
        from checks.ops import out_image
        o = out_image(s, "same", "o", rpix, W, H)
    elif out_kind == "fresh":
        o = Img(s, "o", rpix, 0, 0, stride=0, offset=0, length=0)
    else:
        o = reused(s, "o", rpix, W, H)
    return s, a, b, k, kw, ko, o, W, H


def reused(s, name, pix, W, H):
    """an image that already owns a larger buffer with another shape"""
    W2, H2 = s.s("W2"), s.s("H2", 1)
    s.ctx.add_ge(W2 - W - 1)
    o = Img(s, name, pix, W2, H2, stride=W2, offset=0)
    s.ctx.add_ge(o.field(s.st, "data_length") - W * H)
    return o


def border_conv(w, op, epix, rpix, out_kind, entry, fname):
    key = "%s/%s" % (fname, out_kind)
    s, a, b, k, kw, ko, o, W, H = setup_conv(w, op, epix, rpix, out_kind)
    r = Run(s, fname, [k, b, o.ptr])
    out = [r.returns(key + "/returns")]
    out.append(r.decide(o.field(r.st, "width"), W, "output width", key=key + "/width"))
    out.append(r.decide(o.field(r.st, "height"), H, "output height", key=key + "/height"))
    X, Y = r.var("X", 0, W - 1), r.var("Y", 0, H - 1)
    got = o.final(r.st, X, Y, r.ctx)
    spec = conv_spec(op, a, kw, ko, s, lambda x, y: bordered(a, "b", x, y))(X, Y)
    if rpix != SIGNED[epix]:
        spec = cast_to(rpix, spec)
    w_ = r.writes_at("o.data")
    out.append(r.decide(got, spec, "output pixel (X,Y)", loc=w_[0] if w_ else None, key=key + "/pixel"))
    return out


def divided(pix, total, d):
    """sum plus half the divisor, divided by the divisor (integers truncate); the exact quotient for real pixels"""
    if pix[0] == "F":
        return total * T.inv(d)
    return cast_to(pix, T.div(total + T.div(d, P(2)), d))


def direct(w, name, op, epix, rpix, div):
    """one of the building blocks called directly: naive (all pixels) or inner (the pixels whose window is inside)"""
    from checks.ops import dims, out_image, val
    key = name
    inner = name.startswith("inner")
    s = Setup(w)
    W, H = dims(s)
    a = Img(s, "a", epix, W, H, sub=True)
    b = None if inner else s.border("b", CPP[epix], a.ptr)
    k, kw, ko = kernel(s, CPP[SIGNED[epix]], 2 if op == "2" else 1)
    o = out_image(s, "same", "o", rpix, W, H)
    args = [k, a.ptr if inner else b, o.ptr]
    d = None
    if div:
        d = val(s, "d", SIGNED[epix])
        args.append(d)
    if inner:
        if op in "h2":
            s.ctx.add_ge(W - kw)
        if op in "v2":
            s.ctx.add_ge(H - kw)
    r = Run(s, name, args)
    pre = (lambda it: it.poly(d) != 0) if div else None
    out = [r.decide(b_poly(r.g) if isinstance(r.g, BDD) else r.g, ONE, "returns normally", key=key + "/returns", pre=pre)]
    X, Y = r.var("X", 0, W - 1), r.var("Y", 0, H - 1)
    spec = conv_spec(op, a, kw, ko, s, a.px if inner else (lambda x, y: bordered(a, "b", x, y)))(X, Y)
    spec = divided(rpix, spec, d) if div else spec if rpix == SIGNED[epix] else cast_to(rpix, spec)
    w_ = r.writes_at("o.data")
    c = r.ctx
    got = o.final(r.st, X, Y, c)
    if inner:
        g = TRUE
        if op in "h2":
            g = b_and(g, b_and(ge0(X - ko), ge0(W - kw + ko - X)))
        if op in "v2":
            g = b_and(g, b_and(ge0(Y - ko), ge0(H - kw + ko - Y)))
        was = o.px(X, Y)
        spec = ite(g, spec, was)
    out.append(r.decide(got, spec, "output pixel (X,Y)", loc=w_[0] if w_ else None, key=key + "/pixel", pre=pre))
    return out


def obligations(ws, tier):
    w = ws["conv"]
    obs = []
    for op in "hv2":
        for epix, rpix in (("U8", "S32"), ("F32", "F32"), ("S16", "S16")):
            obs.append(Ob("naivep_%s_%s" % (op, epix), direct, w, "naivep_%s_%s" % (op, epix), op, epix, rpix, False))
            obs.append(Ob("innerp_%s_%s" % (op, epix), direct, w, "innerp_%s_%s" % (op, epix), op, epix, rpix, False))
        for pix in ("U8", "F32", "S16"):
            obs.append(Ob("naive_%s_%s" % (op, pix), direct, w, "naive_%s_%s" % (op, pix), op, pix, pix, True))
            obs.append(Ob("inner_%s_%s" % (op, pix), direct, w, "inner_%s_%s" % (op, pix), op, pix, pix, True))
    for op in "hv2":
        for epix, rpix in (("U8", "S32"), ("F32", "F32"), ("S16", "S16")):
            for kind in ("same", "fresh", "larger"):
                fn = "conv_%s_%s" % (op, epix)
                obs.append(Ob("%s/%s" % (fn, kind), border_conv, w, op, epix, rpix, kind, None, fn))
    return obs


DRIVERS = ["conv"]
