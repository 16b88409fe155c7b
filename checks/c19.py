"""Checked accessors reject exactly the coordinates outside the container."""
from checks.data import *
from checks.texts import *
TECHNIQUE = T_FORM
RULE = rule("For every 32-bit coordinate or index, the range-checked accessor returns normally exactly when the coordinate is inside the "
            "container; the value returned (or the only element written through the returned reference) is the addressed one, and no element "
            "outside the container is read or written.")
NOTE = NOTE_FORM
ASSUMPTIONS = ASSUME[:1] + ["containers hold fewer than 2^28 elements"]
LEVEL = "other"
DRIVERS = ["data"]
U32 = (1 << 32) - 1


def res(r, key, ok, value, a, region, put=None, vctx=True):
    out = [r.returns(key + "/range", expect=b_poly(ok))]
    c = r.ctx.with_bdd(ok)
    if value is not None:
        out.append(r.decide(r.ret, value, "value returned", key=key + "/value", ctx=c))
    out += r.accesses({a: region}, key + "/access")
    if put is not None:
        idx, v, ety, isint = put
        i = T.sym("i")
        r.syms.append(i.atom())
        ec = c.child()
        ec.add_ge(i)
        got = arrays.resolve_read(r.ev.get_arr(r.st, a), i, ety, isint, ec)
        out.append(r.decide(got, ite(eq0(i - idx), v, T.read(mkarr("init", a), i, ety, isint)), "element i afterwards", key=key + "/stored", ctx=ec))
    return out


def o_ga(w, fn, pix):
    s = Setup(w)
    a = Grow(s, "a", pix, resizable=s.s("flag", 0, 1))
    i = s.s("at", 0, U32)
    ok = ge0(a.size - 1 - i)
    key = "%s_%s" % (fn, pix)
    if fn == "ga_at":
        r = Run(s, key, [a.ptr, i])
        return res(r, key, ok, a.init(i), a.data, Region(length=a.size))
    v = val(s, "v", pix)
    r = Run(s, key, [a.ptr, i, v])
    return res(r, key, ok, None, a.data, Region(length=a.size), (i, v, a.ety, a.isint))


def o_img(w, fn, pix):
    s = Setup(w)
    W, H = s.s("W", 0, 1 << 14), s.s("H", 0, 1 << 14)
    a = Img(s, "a", pix, W, H, sub=s.s("sub", 0, 1))
    s.ctx.add_ge(P(1 << 16) - a.stride)
    s.ctx.add_ge(P(1 << 28) - a.offset)
    x, y = s.s("x", 0, U32), s.s("y", 0, U32)
    ok = b_and(ge0(W - 1 - x), ge0(H - 1 - y))
    key = "%s_%s" % (fn, pix)
    if fn == "g_inb":
        r = Run(s, key, [a.ptr, x, y])
        return [r.decide(r.ret if not isinstance(r.ret, BDD) else b_poly(r.ret), b_poly(ok), "coordinate inside", key=key + "/value")]
    args = [a.ptr, x, y]
    v = None
    if fn == "g_put":
        v = val(s, "v", pix)
        args.append(v)
    r = Run(s, key, args)
    return res(r, key, ok, a.px(x, y) if v is None else None, a.data, a.region(),
               None if v is None else (a.offset + y * a.stride + x, v, a.ety, a.isint))


def o_int(w, fn, pix):
    s = Setup(w)
    W, H, B = s.s("W", 0, 1 << 12), s.s("H", 0, 1 << 12), s.s("B", 0, 16)
    a = Inter(s, "a", pix, W, H, B)
    s.ctx.add_ge(P(1 << 16) - a.stride)
    s.ctx.add_ge(P(1 << 28) - a.offset)
    x, y, b = s.s("x", 0, U32), s.s("y", 0, U32), s.s("b", 0, U32)
    ok = b_and(b_and(ge0(W - 1 - x), ge0(H - 1 - y)), ge0(B - 1 - b))
    key = "%s_%s" % (fn, pix)
    args = [a.ptr, x, y, b]
    v = None
    if fn == "i_put":
        v = val(s, "v", pix)
        args.append(v)
    r = Run(s, key, args)
    return res(r, key, ok, a.pxb(x, y, b) if v is None else None, a.data, Region(images=((a.offset, a.stride, W * B, H),)),
               None if v is None else (a.offset + y * a.stride + x * B + b, v, a.ety, a.isint))


def o_k(w, fn, pix):
    s = Setup(w)
    dim = 1 if fn == "k1_at" else 2
    wd = s.s("w", 0, 1 << 13)
    k = s.kernel("k", {"S32": "int", "F32": "float", "F64": "double"}[pix], wd, s.s("o", 0), dim=dim)
    x, y = s.s("x", 0, U32), s.s("y", 0, U32)
    key = "%s_%s" % (fn, pix)
    s.images = {}
    ety = PIX[pix][0], PIX[pix][1]
    if dim == 1:
        ok, idx = ge0(wd - 1 - x), x
        r = Run(s, key, [k, x])
    else:
        ok, idx = b_and(ge0(wd - 1 - x), ge0(wd - 1 - y)), y * wd + x
        r = Run(s, key, [k, x, y])
    return res(r, key, ok, T.read(mkarr("init", "k.data"), idx, ety, pix[0] != "F"), "k.data", Region(length=wd if dim == 1 else wd * wd))


def obligations(ws, tier):
    w = ws["data"]
    obs = []
    for pix in ("U32", "U8", "S32", "F32", "F64"):
        for fn in ("ga_at", "ga_put"):
            obs.append(Ob("%s_%s" % (fn, pix), o_ga, w, fn, pix))
    for pix in ("U8", "S16", "F32"):
        for fn in ("g_at", "g_put", "g_inb"):
            obs.append(Ob("%s_%s" % (fn, pix), o_img, w, fn, pix))
        for fn in ("i_at", "i_put"):
            obs.append(Ob("%s_%s" % (fn, pix), o_int, w, fn, pix))
    for pix in ("S32", "F32", "F64"):
        for fn in ("k1_at", "k2_at"):
            obs.append(Ob("%s_%s" % (fn, pix), o_k, w, fn, pix))
    return obs
