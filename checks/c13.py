"""Image geometry stays consistent under construction, reshape and views."""
from checks.data import *
from checks.texts import *
TECHNIQUE = T_FORM
RULE = rule("After construction, copy, assignment, reshape, band changes and taking a sub-image: width, height, bands are those requested, the memory "
            "behind the data pointer has room for the last pixel and for data_length elements, pixel (x,y) of a view is pixel (x0+x,y0+y) of its "
            "parent, copies have equal pixels, storage is kept when it is large enough, views refuse another shape, illegal bounds are rejected.")
NOTE = NOTE_FORM
ASSUMPTIONS = ASSUME[:4] + ["an owned image starts with offset 0, stride width*bands and data_length >= its size, as every constructor leaves it"]
LEVEL = "other"
DRIVERS = ["data"]
DIM, BMAX = 1 << 13, 16


class Im:
    """Gray or Interleaved parameter of kind raw / owned / view"""

    def __init__(self, s, name, pix, kind, inter, W=None, H=None, B=None, data=None):
        self.s, self.name, self.pix, self.kind, self.inter = s, name, pix, kind, inter
        self.cls = ("Interleaved<%s>" if inter else "Gray<%s>") % CPP[pix]
        self.ety = PIX[pix][0], PIX[pix][1]
        self.isint = pix[0] != "F"
        self.data = data or name + ".data"
        if kind == "raw":
            self.ptr = s.obj(name, self.cls, {})
            return
        self.W = s.s(name + ".W", 0, DIM) if W is None else P(W)
        self.H = s.s(name + ".H", 0, DIM) if H is None else P(H)
        self.B = (s.s(name + ".B", 0, BMAX) if B is None else P(B)) if inter else ONE
        cap = s.s(name + ".data_length", 0, CAP)
        self.cap = cap
        row = self.W * self.B
        if kind == "view":
            self.off = s.s(name + ".offset", 0, 1 << 26)
            self.stride = s.s(name + ".stride", 0, 1 << 17)
            s.ctx.add_ge(self.stride - row)
        else:
            self.off, self.stride = ZERO, row
            s.ctx.add_ge(cap - row * self.H)
        s.array(self.data, pix, cap, heap="_Znam" if kind == "owned" else None)
        f = {"width": self.W, "height": self.H, "offset": self.off, "stride": self.stride, "data_length": cap,
             "data": mkptr(self.data), "subimage": P(1 if kind == "view" else 0)}
        if inter:
            f["num_bands"] = self.B
        self.ptr = s.obj(name, self.cls, f)
        vt = "_ZTVN6boofcv%s%sEE" % ("11InterleavedI" if inter else "4GrayI", {"U8": "h", "S16": "s", "F32": "f"}[pix])
        s.ev.const_ptr("@" + vt)
        s.st.cells[(name, 0)] = mkptr(vt, P(16))

    def f(self, st, n):
        return self.s.get(st, self.name, self.cls, n)

    def init(self, i):
        return T.read(mkarr("init", self.data), P(i), self.ety, self.isint)

    def px(self, x, y, b=ZERO):
        return self.init(self.off + y * self.stride + x * self.B + b)

    def row(self, q, y):
        return self.init(self.off + y * self.stride + q)

    def final(self, st, x, y, b, ctx):
        o, t = self.f(st, "offset"), self.f(st, "stride")
        B = self.f(st, "num_bands") if self.inter else ONE
        if not all(isinstance(q, Poly) for q in (o, t, B)):
            return None
        return read_ptr(self.s, st, self.f(st, "data"), ctx.simp(o + y * t + x * B + b), self.ety, self.isint, ctx)


def post(r, a, key, W, H, B=ONE, sub=0, pixel=None, keep=None, share=None, room=True, ctx=None, flat=None):
    """geometry afterwards; pixel(x,y,b) = required contents; share = root the view must refer to"""
    if ctx is None:
        ctx = r.ctx if r.g is TRUE else r.ctx.with_bdd(r.g)
    out = []
    for n, v in (("width", W), ("height", H)) + ((("num_bands", B),) if a.inter else ()):
        out.append(r.decide(a.f(r.st, n), v, n, key=key + "/" + n, ctx=ctx))
    out.append(r.decide(a.f(r.st, "subimage"), P(sub), "sub-image flag", key=key + "/subimage", ctx=ctx))
    d, o, t, dl = (a.f(r.st, n) for n in ("data", "offset", "stride", "data_length"))
    ok = all(isinstance(q, Poly) for q in (o, t, dl))
    if room:
        real = capacity(r.s, r.st, d, ctx, None)
        if real is None or not ok:
            out.append({"key": key + "/storage", "status": "open", "detail": "storage not identified"})
        else:
            # the last row fits, rows do not overlap, data_length is the truth
            last = b_or(b_or(ge0(-W), ge0(-H)), b_or(ge0(-B), ge0(real - (o + (H - 1) * t + W * B))))
            out.append(r.decide(b_poly(last), ONE, "room for the last pixel", key=key + "/storage", ctx=ctx, loc=alloc_site(r, d)))
            out.append(r.decide(b_poly(ge0(ctx.simp(real - dl))), ONE, "data_length within the storage", key=key + "/length", ctx=ctx))
            rows = b_or(ge0(ONE - H), ge0(t - W * B))
            out.append(r.decide(b_poly(rows), ONE, "rows do not overlap", key=key + "/rows", ctx=ctx))
    if keep is not None:
        p = points_to(d, a.data)
        kc = ctx.with_bdd(keep)
        out.append(r.decide(kc.simp(p) if p is not None else None, ONE, "storage kept when it is large enough", key=key + "/kept", ctx=kc))
    if share is not None:
        p = points_to(d, share)
        out.append(r.decide(ctx.simp(p) if p is not None else None, ONE, "view of the given memory", key=key + "/shared", ctx=ctx))
    if pixel is not None:
        x, y, b = T.sym("X"), T.sym("Y"), T.sym("b") if a.inter else ZERO
        c = ctx.child()
        for q, lim in ((x, W), (y, H)) + (((b, B),) if a.inter else ()):
            r.syms.append(q.atom())
            c.add_ge(q)
            c.add_ge(lim - 1 - q)
        if not c.dead and not c.entails(P(-1)):
            out.append(r.decide(a.final(r.st, x, y, b, c), pixel(x, y, b), "pixel (x,y)", key=key + "/pixel", ctx=c, loc=store_site(r, d)))
    if flat is not None:
        q, y = T.sym("q"), T.sym("Y")
        r.syms += [q.atom(), y.atom()]
        c = ctx.child()
        for v, lim in ((q, W * B), (y, H)):
            c.add_ge(v)
            c.add_ge(lim - 1 - v)
        for lim in (W, H, B, W * B, W * H, W * B * H):      # there is a sample, so no side is zero
            c.add_ge(P(lim) - 1)
        if not c.dead and not c.entails(P(-1)):
            got = read_ptr(r.s, r.st, d, c.simp(o + y * t + q), a.ety, a.isint, c) if ok else None
            out.append(r.decide(got, flat(q, y), "sample q of row y", key=key + "/pixel", ctx=c, loc=store_site(r, d)))
    return out


def alloc_site(r, d):
    if isinstance(d, Ptr):
        for g, root, o in d.alts:
            if root and r.ev.roots[root].loc:
                return r.ev.roots[root].loc
    return None


def store_site(r, d):
    if isinstance(d, Ptr):
        for g, root, o in d.alts:
            w = r.writes_at(root) if root else None
            if w:
                return w[0]
    return None


def eqpix(b):
    return {"flat": b.row} if b.inter else {"pixel": b.px}


def dimsyms(s, inter):
    return s.s("w", 0, DIM), s.s("h", 0, DIM), (s.s("n", 0, BMAX) if inter else ONE)


def pre(inter):
    return "i" if inter else "g"


def o_ctor(w, pix, inter):
    s = Setup(w)
    a = Im(s, "a", pix, "raw", inter)
    W, H, B = dimsyms(s, inter)
    key = "%s_ctor_%s" % (pre(inter), pix)
    r = Run(s, key, [a.ptr, W, H] + ([B] if inter else []))
    out = [r.returns(key + "/returns")] + post(r, a, key, W, H, B)
    s = Setup(w)
    a = Im(s, "a", pix, "raw", inter)
    key = "%s_ctor0_%s" % (pre(inter), pix)
    r = Run(s, key, [a.ptr])
    out += [r.returns(key + "/returns")] + post(r, a, key, ZERO, ZERO, ZERO if inter else ONE)
    return out


def o_wrap(w, pix, inter):
    s = Setup(w)
    a = Im(s, "a", pix, "raw", inter)
    W, H, B = dimsyms(s, inter)
    n, o, t = s.s("l", 0, CAP), s.s("o", 0, 1 << 26), s.s("t", 0, 1 << 17)
    s.ctx.add_ge(t - W * B)
    p = s.array("ext", pix, n)
    key = "%s_wrap_%s" % (pre(inter), pix)
    r = Run(s, key, [a.ptr, p, n, W, H] + ([B] if inter else []) + [o, t])
    return [r.returns(key + "/returns"),
            r.decide(a.f(r.st, "offset"), o, "offset", key=key + "/offset"),
            r.decide(a.f(r.st, "stride"), t, "stride", key=key + "/stride"),
            r.decide(a.f(r.st, "data_length"), n, "data_length", key=key + "/data_length")] + \
        post(r, a, key, W, H, B, sub=1, share="ext", room=False,
             pixel=lambda x, y, b: T.read(mkarr("init", "ext"), o + y * t + x * B + b, a.ety, a.isint))


def o_copyctor(w, pix, inter, kb):
    s = Setup(w)
    a = Im(s, "a", pix, "raw", inter)
    b = Im(s, "b", pix, kb, inter)
    fn = "%s_copyctor_%s" % (pre(inter), pix)
    key = fn + "/" + kb
    r = Run(s, fn, [a.ptr, b.ptr])
    out = [r.returns(key + "/returns"), r.unchanged(b.data, key + "/frame")]
    return out + post(r, a, key, b.W, b.H, b.B, sub=1 if kb == "view" else 0, room=kb == "owned", **eqpix(b))


def o_reshape(w, pix, inter, ka, three=False):
    s = Setup(w)
    a = Im(s, "a", pix, ka, inter)
    W, H, B = dimsyms(s, inter)
    if inter and not three:
        B = a.B
    fn = "%s_reshape%s_%s" % (pre(inter), "3" if three else "", pix)
    key = fn + "/" + ka
    r = Run(s, fn, [a.ptr, W, H] + ([B] if three else []))
    same = b_and(b_and(eq0(W - a.W), eq0(H - a.H)), eq0(B - a.B))
    if ka == "view":
        c = r.ctx.with_bdd(same)
        return [r.returns(key + "/returns", expect=b_poly(same)), r.unchanged(a.data, key + "/frame")] + \
            post(r, a, key, a.W, a.H, a.B, sub=1, share=a.data, pixel=a.px, room=False, ctx=c)
    out = [r.returns(key + "/returns")] + post(r, a, key, W, H, B, keep=ge0(a.cap - W * H * B))
    c = r.ctx.with_bdd(same)
    if not c.dead:
        out += [dict(x, key=x["key"].replace(key, key + "/same")) for x in post(r, a, key, a.W, a.H, a.B, pixel=a.px, room=False, ctx=c)]
    return out


def o_bands(w, pix, ka):
    s = Setup(w)
    a = Im(s, "a", pix, ka, True)
    B = s.s("n", 0, BMAX)
    fn = "i_bands_%s" % pix
    key = fn + "/" + ka
    r = Run(s, fn, [a.ptr, B])
    if ka == "view":
        same = eq0(B - a.B)
        return [r.returns(key + "/returns", expect=b_poly(same)), r.unchanged(a.data, key + "/frame")] + \
            post(r, a, key, a.W, a.H, a.B, sub=1, share=a.data, pixel=a.px, room=False, ctx=r.ctx.with_bdd(same))
    return [r.returns(key + "/returns")] + post(r, a, key, a.W, a.H, B, keep=ge0(a.cap - a.W * a.H * B))


SPLIT = {"": None, "same": (1, None, None), "bands": (1, None, None), "grow1": (0, 0, None), "fits1-grow2": (0, 1, 0), "fits": (0, 1, 1)}


def shared(a, case):
    return {"W": a.W, "H": a.H, "B": a.B} if case == "same" else {"B": a.B} if case == "bands" else {}


def scenario(s, a, b, case):
    """restrict the entry to one of the (exhaustive) cases: equal band counts, first/second reallocation needed"""
    if not SPLIT[case]:
        return
    eqb, fit1, fit2 = SPLIT[case]
    if case == "bands":
        s.ctx = s.ctx.with_bdd(b_not(b_and(eq0(a.W - b.W), eq0(a.H - b.H))))
    for cond, v in ((eq0(a.B - b.B), eqb), (ge0(a.cap - a.W * a.H * b.B), fit1), (ge0(a.cap - b.W * b.H * b.B), fit2)):
        if v is not None:
            s.ctx = s.ctx.with_bdd(cond if v else b_not(cond))


def o_copy(w, pix, inter, fn0, ka, kb, case=""):
    """copy / setTo / operator=; equal pixels whatever the geometries"""
    s = Setup(w)
    a = Im(s, "a", pix, ka, inter)
    b = Im(s, "b", pix, kb, inter, **shared(a, case))
    scenario(s, a, b, case)
    fn = "%s_%s_%s" % (pre(inter), fn0, pix)
    key = "%s/%s-%s" % (fn, ka, kb) + ("/" + case if case else "")
    r = Run(s, fn, [a.ptr, b.ptr])
    same = b_and(b_and(eq0(a.W - b.W), eq0(a.H - b.H)), eq0(a.B - b.B))
    out = [r.unchanged(b.data, key + "/frame")]
    alias = fn0 == "assign" and kb == "view"
    if ka == "view" and not alias:
        out.append(r.returns(key + "/returns", expect=b_poly(same)))
        return out + post(r, a, key, a.W, a.H, a.B, sub=1, share=a.data, **eqpix(b), room=False, ctx=r.ctx.with_bdd(same))
    out.append(r.returns(key + "/returns"))
    if alias:
        return out + post(r, a, key, b.W, b.H, b.B, sub=1, **eqpix(b), room=False)
    return out + post(r, a, key, b.W, b.H, b.B, keep=ge0(a.cap - b.W * b.H * b.B) if not inter else None, **eqpix(b))


def o_self(w, pix, inter, ka):
    s = Setup(w)
    a = Im(s, "a", pix, ka, inter)
    fn = "%s_self_%s" % (pre(inter), pix)
    key = fn + "/" + ka
    r = Run(s, fn, [a.ptr])
    return [r.returns(key + "/returns")] + post(r, a, key, a.W, a.H, a.B, sub=1 if ka == "view" else 0, share=a.data, pixel=a.px, room=False)


def o_sub(w, pix, inter, ka):
    s = Setup(w)
    v = Im(s, "v", pix, "raw", inter)
    a = Im(s, "a", pix, ka, inter)
    x0, y0, x1, y1 = (s.s(n, 0, 1 << 20) for n in ("x0", "y0", "x1", "y1"))
    fn = "%s_sub_%s" % (pre(inter), pix)
    key = fn + "/" + ka
    r = Run(s, fn, [v.ptr, a.ptr, x0, y0, x1, y1])
    ok = b_and(b_and(ge0(a.W - x1), ge0(a.H - y1)), b_and(ge0(x1 - x0), ge0(y1 - y0)))
    c = r.ctx.with_bdd(ok)
    out = [r.returns(key + "/returns", expect=b_poly(ok)), r.unchanged(a.data, key + "/frame"),
           r.decide(v.f(r.st, "data_length"), a.cap, "data_length", key=key + "/data_length", ctx=c)]
    return out + post(r, v, key, x1 - x0, y1 - y0, a.B, sub=1, share=a.data, room=False, ctx=c, pixel=lambda x, y, b: a.px(x0 + x, y0 + y, b))


def o_query(w, pix, inter):
    out = []
    p = pre(inter)
    for fn in ("idx", "uat") + (() if inter else ("total", "w", "h")):
        s = Setup(w)
        a = Im(s, "a", pix, "view", inter)
        key = "%s_%s_%s" % (p, fn, pix)
        if fn in ("idx", "uat"):
            x, y, b = s.s("x", 0), s.s("y", 0), s.s("b", 0) if inter else ZERO
            for q, lim in ((x, a.W), (y, a.H)) + (((b, a.B),) if inter else ()):
                s.ctx.add_ge(lim - 1 - q)
            r = Run(s, key, [a.ptr, x, y] + ([b] if inter else []))
            want = a.off + y * a.stride + x * a.B + b if fn == "idx" else a.px(x, y, b)
        else:
            r = Run(s, key, [a.ptr])
            want = {"total": a.W * a.H, "w": a.W, "h": a.H}[fn]
        out += [r.returns(key + "/returns"), r.decide(r.ret, want, "value", key=key + "/value")]
    return out


def o_acc(w, pix, inter, fn0, ka, kb, case=""):
    s = Setup(w)
    a = Im(s, "a", pix, ka, inter)
    b = Im(s, "b", pix, kb, inter, **shared(a, case))
    scenario(s, a, b, case)
    fn = "%s_%s_%s" % (pre(inter), fn0, pix)
    r = Run(s, fn, [a.ptr, b.ptr])
    regions = {}
    for im in (a, b):
        regions[im.data] = Region(images=((im.off, im.stride, im.W * im.B, im.H),)) if im.kind == "view" else Region(length=im.cap)
    for n, rt in r.ev.roots.items():
        if rt.kind == "array" and rt.origin == "heap" and rt.length is not None:
            regions[n] = Region(length=P(rt.length))
    return r.accesses(regions, "%s/%s-%s/access" % (fn, ka, kb) + ("/" + case if case else ""))


def obligations(ws, tier):
    w = ws["data"]
    obs = []
    for pix in ("U8", "S16", "F32"):
        for inter in (False, True):
            p = pre(inter)
            obs.append(Ob("%s_ctor_%s" % (p, pix), o_ctor, w, pix, inter))
            obs.append(Ob("%s_wrap_%s" % (p, pix), o_wrap, w, pix, inter))
            obs.append(Ob("%s_query_%s" % (p, pix), o_query, w, pix, inter))
            for k in ("owned", "view"):
                obs.append(Ob("%s_copyctor_%s/%s" % (p, pix, k), o_copyctor, w, pix, inter, k))
                obs.append(Ob("%s_reshape_%s/%s" % (p, pix, k), o_reshape, w, pix, inter, k))
                if inter:
                    obs.append(Ob("%s_reshape3_%s/%s" % (p, pix, k), o_reshape, w, pix, inter, k, True))
                    obs.append(Ob("%s_bands_%s/%s" % (p, pix, k), o_bands, w, pix, k))
                obs.append(Ob("%s_self_%s/%s" % (p, pix, k), o_self, w, pix, inter, k))
                obs.append(Ob("%s_sub_%s/%s" % (p, pix, k), o_sub, w, pix, inter, k))
                for kb in ("owned", "view"):
                    for fn in ("copy", "assign"):
                        split = inter and k == "owned" and not (fn == "assign" and kb == "view")
                        for cs in ([c for c in SPLIT if c] if split else [""]):
                            x = "/" + cs if cs else ""
                            obs.append(Ob("%s_%s_%s/%s-%s" % (p, fn, pix, k, kb) + x, o_copy, w, pix, inter, fn, k, kb, cs))
                            obs.append(Ob("%s_%s_%s/%s-%s/access" % (p, fn, pix, k, kb) + x, o_acc, w, pix, inter, fn, k, kb, cs))
    return obs
