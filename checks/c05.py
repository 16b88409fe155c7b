"""Normalised convolution equals the weighted average over the part of the kernel that overlaps the image."""
from checks.c04 import *
TECHNIQUE = T_FORM
RULE = rule("Output pixel (X,Y) of every normalized convolution entry = weighted sum over the overlap divided by the overlap weight.")
NOTE = NOTE_FORM
ASSUMPTIONS = ASSUME
LEVEL = "other"


def overlap(img, s, kw, ko, axis, X, Y):
    """(total, weight) of the kernel part inside the image"""
    Z, N = (X, img.W) if axis == "h" else (Y, img.H)
    lo = ite(ge0(Z - ko), ZERO, ko - Z)
    hi = ite(ge0(N - Z + ko - kw), kw - 1, N - 1 - Z + ko)

    def tap(j):
        p = Z - ko + j
        return kval(s, j) * (img.px(p, Y) if axis == "h" else img.px(X, p))
    return clampsum(lo, hi, tap), clampsum(lo, hi, lambda j: kval(s, j))


def average(pix, total, weight):
    if pix[0] == "F":
        return total * T.inv(weight)
    return cast_to(pix, T.div(total + T.div(weight, P(2)), weight))


def norm_1d(w, op, pix, fname):
    key = fname
    s = Setup(w)
    W, H = s.s("W", 1), s.s("H", 1)
    a = Img(s, "a", pix, W, H, sub=True)
    k, kw, ko = kernel(s, CPP[SIGNED[pix]], 1)
    o = Img(s, "o", pix, W, H, sub=True)
    r = Run(s, fname, [k, a.ptr, o.ptr])
    out = [r.returns(key + "/returns")]
    X, Y = r.var("X", 0, W - 1), r.var("Y", 0, H - 1)
    got = o.final(r.st, X, Y, r.ctx)
    total, weight = overlap(a, s, kw, ko, op, X, Y)
    w_ = r.writes_at("o.data")
    out.append(r.decide(got, average(pix, total, weight), "output pixel (X,Y)", loc=w_[0] if w_ else None, key=key + "/pixel",
                        pre=lambda it: it.poly(weight) != 0))
    return out


def obligations(ws, tier):
    w = ws["conv"]
    obs = []
    for op in "hv":
        for pix in ("U8", "S16", "F32"):
            for n in ("norm", "normn"):
                fn = "%s_%s_%s" % (n, op, pix)
                obs.append(Ob(fn, norm_1d, w, op, pix, fn))
    from checks.c06 import composite
    for pix in ("U8", "S16", "F32"):
        for kind, sk in (("same", "same"), ("fresh", "larger"), ("larger", "fresh")):
            obs.append(Ob("norm_c_%s/%s-%s" % (pix, kind, sk), composite, w, "norm", pix, kind, sk))
    return obs


DRIVERS = ["conv"]
