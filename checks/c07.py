"""Image borders follow their rule for every coordinate."""
from checks.ops import *
from checks.texts import *
TECHNIQUE = T_FORM
RULE = rule("Value read through a border at any integer coordinate = the pixel prescribed by the border type.")
NOTE = NOTE_FORM
ASSUMPTIONS = ASSUME + ["image sides are at least 1 and below 2^30, coordinates are within +-2^30"]
LEVEL = "other"
DRIVERS = ["border"]
BIG = 1 << 30


def emod(x, n):
    """remainder in [0,n)"""
    return x - n * T.div(x, n)


def index(rule_, x, n):
    if rule_ == "extend":
        return ite(ge0(-x - 1), ZERO, ite(ge0(x - n), n - 1, x))
    if rule_ == "wrap":
        r = T.rem(x, n)
        return ite(ge0(-r - 1), r + n, r)
    period = ite(ge0(n - 2), (n - 1) * 2, ONE)
    m = ite(ge0(-x - 1), T.rem(-x, period), T.rem(x, period))
    return ite(ge0(m - n), period - m, m)


def start(w, pix):
    s = Setup(w)
    W, H = dims(s)
    s.ctx.add_ge(BIG - W)
    s.ctx.add_ge(BIG - H)
    a = Img(s, "a", pix, W, H, sub=True)
    x, y = s.s("x", -BIG, BIG), s.s("y", -BIG, BIG)
    return s, a, W, H, x, y


def expected(rule_, a, x, y, W, H, v=None):
    if rule_ == "value":
        return ite(inside(a, x, y), a.px(x, y), v)
    out = a.px(index(rule_, x, W), index(rule_, y, H))
    return ite(inside(a, x, y), a.px(x, y), out)


def ob(w, fn, rule_, pix):
    s, a, W, H, x, y = start(w, pix)
    args = [a.ptr, x, y]
    v = None
    if rule_ == "value":
        v = ZERO
        if not fn == "fac":
            v = val(s, "v", pix)
            args.append(v)
    if fn == "fac":
        args.append(P({"extend": 1, "reflect": 3, "wrap": 4, "value": 5}[rule_]))
    r = Run(s, fn + "_" + pix, args)
    key = "%s_%s/%s" % (fn, pix, rule_)
    out = [r.returns(key + "/returns")]
    out.append(r.decide(r.ret, expected(rule_, a, x, y, W, H, v), "value at (x,y)", key=key + "/value"))
    return out


def ob_acc(w, fn, rule_, pix):
    s, a, W, H, x, y = start(w, pix)
    args = [a.ptr, x, y] + ([val(s, "v", pix)] if rule_ == "value" else [])
    r = Run(s, fn + "_" + pix, args)
    return r.accesses({"a.data": a.region()}, "%s_%s/access" % (fn, pix))


def ob_dim(w, fn, pix):
    s, a, W, H, x, y = start(w, pix)
    r = Run(s, fn + "_" + pix, [a.ptr])
    return r.decide(r.ret, W if fn == "bwidth" else H, "size of the bordered image", key="%s_%s" % (fn, pix))


def obligations(ws, tier):
    w = ws["border"]
    obs = []
    for pix in ("U8", "S16", "S32", "F32"):
        for fn, rl in (("value", "value"), ("value1", "value"), ("extend", "extend"), ("reflect", "reflect"), ("wrap", "wrap"),
                       ("facv", "value"), ("fac", "extend"), ("fac", "reflect"), ("fac", "wrap"), ("fac", "value")):
            obs.append(Ob("%s_%s/%s" % (fn, pix, rl), ob, w, fn, rl, pix))
            if fn[:3] != "fac":
                obs.append(Ob("%s_%s/access" % (fn, pix), ob_acc, w, fn, rl, pix))
        for fn in ("bwidth", "bheight"):
            obs.append(Ob("%s_%s" % (fn, pix), ob_dim, w, fn, pix))
    return obs
