"""Operator table for the properties every image operator has to satisfy (memory bounds, staleness,
frame, shape rejection), and the obligations of those properties."""
from checks.ops import *
from sa.check import next_gate, gate_cases
from checks.c04 import kernel, setup_conv
from checks.common import Ob, relloc
import random

GEN = {}        # name -> (driver, builder(world, kind) -> Case, kinds)


def from_ops():
    for n, (d, f, kinds) in OPS.items():
        GEN[n] = (d, f, kinds)


def mk_conv(op, epix, rpix):
    def f(w, kind):
        s, a, b, k, kw, ko, o, W, H = setup_conv(w, op, epix, rpix, kind)
        r = Run(s, "conv_%s_%s" % (op, epix), [k, b, o.ptr])
        return Case(s, r, [a], [o], None, W=W, H=H, regions={"k.data": kw * kw if op == "2" else kw})
    return f


def mk_naive(op, pix):
    def f(w, kind):
        s = Setup(w)
        W, H = dims(s)
        a = Img(s, "a", pix, W, H, sub=True)
        b = s.border("b", CPP[pix], a.ptr)
        k, kw, ko = kernel(s, CPP[SIGNED[pix]], 2 if op == "2" else 1)
        o = out_image(s, "same", "o", pix, W, H)
        d = val(s, "d", SIGNED[pix])
        r = Run(s, "naive_%s_%s" % (op, pix), [k, b, o.ptr, d])
        return Case(s, r, [a], [o], None, W=W, H=H, regions={"k.data": kw * kw if op == "2" else kw}, pre=lambda it: it.poly(d) != 0)
    return f


def mk_inner(op, pix):
    def f(w, kind):
        s = Setup(w)
        W, H = dims(s)
        a = Img(s, "a", pix, W, H, sub=True)
        k, kw, ko = kernel(s, CPP[SIGNED[pix]], 2 if op == "2" else 1)
        o = out_image(s, "same", "o", pix, W, H)
        d = val(s, "d", SIGNED[pix])
        # called for images with an inner part only
        if op in "h2":
            s.ctx.add_ge(W - kw)
        if op in "v2":
            s.ctx.add_ge(H - kw)
        r = Run(s, "inner_%s_%s" % (op, pix), [k, a.ptr, o.ptr, d])
        c = Case(s, r, [a], [o], None, W=W, H=H, regions={"k.data": kw * kw if op == "2" else kw}, pre=lambda it: it.poly(d) != 0)
        c.partial = True
        return c
    return f


def wsum(s, kw):
    j = T.fresh("q")
    from checks.c04 import kval
    return T.ssum(j, kw, kval(s, P(j)))


def mk_norm(n, op, pix):
    def f(w, kind):
        s = Setup(w)
        W, H = dims(s)
        a = Img(s, "a", pix, W, H, sub=True)
        k, kw, ko = kernel(s, CPP[SIGNED[pix]], 1)
        o = out_image(s, "same", "o", pix, W, H)
        args = [k, a.ptr, o.ptr]
        work = []
        if op == "c":
            t = out_image(s, kind, "t", pix, W, H)
            args.append(t.ptr)
            work = [t]
        # positive coefficients: no part of the kernel has weight zero
        r = Run(s, "%s_%s_%s" % (n, op, pix), args)

        def pre(it):
            n_ = it.toint(it.poly(kw))
            vals = [it.init_value("k.data", i, None) for i in range(n_)]
            return all(v > 0 for v in vals)
        return Case(s, r, [a], [o], None, W=W, H=H, regions={"k.data": kw}, work=work, pre=pre)
    return f


def mk_mean(op, pix):
    def f(w, kind):
        s = Setup(w)
        W, H = dims(s)
        a = Img(s, "a", pix, W, H, sub=True)
        o = out_image(s, "same", "o", pix, W, H)
        rad = s.s("r", 1)
        n = W if op == "h" else H
        s.ctx.add_ge(rad * 2 - n if kind == "small" else n - rad * 2 - 1)
        r = Run(s, "mean_%s_%s" % (op, pix), [a.ptr, o.ptr, rad])
        return Case(s, r, [a], [o], None, W=W, H=H)
    return f


def build():
    from_ops()
    for op in "hv2":
        for e, rp in (("U8", "S32"), ("F32", "F32"), ("S16", "S16")):
            GEN["conv_%s_%s" % (op, e)] = ("conv", mk_conv(op, e, rp), ("same", "fresh", "larger"))
        for p in ("U8", "F32"):
            GEN["naive_%s_%s" % (op, p)] = ("conv", mk_naive(op, p), ("same",))
            GEN["inner_%s_%s" % (op, p)] = ("conv", mk_inner(op, p), ("same",))
    for p in ("U8", "S16", "F32"):
        for n in ("norm", "normn"):
            for op in "hv":
                GEN["%s_%s_%s" % (n, op, p)] = ("conv", mk_norm(n, op, p), ("same",))
        GEN["norm_c_" + p] = ("conv", mk_norm("norm", "c", p), ("same", "fresh", "larger"))
        for op in "hv":
            GEN["mean_%s_%s" % (op, p)] = ("blur", mk_mean(op, p), ("small", "large"))


build()
DRV = sorted(set(v[0] for v in GEN.values()))


def gcase(ws, name, kind):
    d, f, _ = GEN[name]
    c = f(ws[d], kind)
    c.name, c.kind = name, kind
    return c


# ------------------------------------------------------------------ C01 memory bounds
def out_region(c, o):
    """final geometry of an output image (operators may reshape it)"""
    st = c.r.st
    p = o.field(st, "data")
    off, stride = o.field(st, "offset"), o.field(st, "stride")
    w, h = o.field(st, "width"), o.field(st, "height")
    return p, (off, stride, w, h)


def regions(c):
    """array root -> allowed index set"""
    reg = {}
    ev = c.s.ev
    for i in c.ins:
        if isinstance(i, Inter):
            reg[i.data] = Region(images=((i.offset, i.stride, i.W * i.B, i.H),))
        else:
            reg[i.data] = Region(images=((i.offset, i.stride, i.W, i.H),))
    for o in list(c.outs) + list(c.work):
        p, (off, stride, w, h) = out_region(c, o)
        if isinstance(p, Ptr) and len(p.alts) == 1 and p.alts[0][1] == o.data and all(isinstance(z, Poly) for z in (off, stride, w, h)):
            ims = ((off, stride, w, h),)
            if o.data in reg:
                ims = reg[o.data].images + ims
            reg[o.data] = Region(images=ims)
        elif o.data not in reg and not (c.kind == "fresh"):
            reg[o.data] = Region(length=ev.roots[o.data].length)
    if getattr(c, "inter", None):
        a = c.inter[0]
        reg[a.data] = Region(images=((a.offset, a.stride, a.W * a.B, a.H),))
    if getattr(c, "hist", None):
        reg["h.data"] = Region(length=c.hist[2])
    for n, l in c.regions.items():
        reg[n] = Region(length=P(l))
    for n, r in ev.roots.items():
        if n not in reg and r.kind == "array" and r.length is not None:
            reg[n] = Region(length=P(r.length))
    return reg


def bounds(ws, name, kind):
    key = "%s/%s" % (name, kind)
    c = gcase(ws, name, kind)
    pre = c.pre
    reg = regions(c)
    if getattr(c, "hist", None):
        reg.pop("h.data")
    res = c.r.accesses(reg, key, pre=pre)
    if not res:
        res = [{"key": key, "status": "open", "detail": "no memory access seen; %s" % c.r.notes()[:2]}]
    return res


# ------------------------------------------------------------------ C02 determined by the inputs alone
INPLACE = ("fillb_", "filli_")


def renamed(ws, name, kind):
    """the same call on an output (and work) image with other storage, contents and geometry"""
    OUTNAMES[:] = ["a"] if name.startswith("fill_") else ["o", "t", "h"]
    SUFFIX[0] = "~"
    try:
        return gcase(ws, name, kind)
    finally:
        SUFFIX[0] = ""


def stale(ws, name, kind, base):
    key = "%s/%s" % (name, kind)
    c1 = gcase(ws, name, base)
    c2 = renamed(ws, name, kind)
    r1, r2 = c1.r, c2.r
    r1.ev.roots.update({k: v for k, v in r2.ev.roots.items() if k not in r1.ev.roots})
    for f in r2.ctx.facts():
        r1.ctx.add_ge(f)
    for a in r2.syms:
        if a not in r1.syms:
            r1.syms.append(a)
    out = [r1.decide(b_poly(r2.g), b_poly(r1.g), "returns normally", key=key + "/returns")]
    if getattr(c1, "hist", None):
        k = r1.var("k", 0, c1.hist[2] - 1)
        v1 = arrays.resolve_read(r1.ev.get_arr(r1.st, "h.data"), k, ("u", 32), True, r1.ctx)
        v2 = arrays.resolve_read(r2.ev.get_arr(r2.st, "h~.data"), k, ("u", 32), True, r1.ctx)
        out.append(r1.decide(v2, v1, "bin k with other old contents", key=key + "/bin", loc=(r2.writes_at("h~.data") or [None])[-1]))
    X, Y = r1.var("X", 0, c1.W - 1), r1.var("Y", 0, c1.H - 1)
    for o1, o2 in zip(c1.outs, c2.outs):
        if not getattr(c1, "partial", False):
            out.append(r1.decide(o2.field(r2.st, "width"), c1.W, "output width", key=key + "/width"))
            out.append(r1.decide(o2.field(r2.st, "height"), c1.H, "output height", key=key + "/height"))
            v1, v2 = o1.final(r1.st, X, Y, r1.ctx), o2.final(r2.st, X, Y, r1.ctx)
            w = r2.writes_at(o2.data) or r2.writes_at(o1.data)
            out.append(r1.decide(v2, v1, "output pixel (X,Y) with other old contents and shape of the output and work images",
                                 key=key + "/pixel", loc=w[0] if w else None, pre=c1.pre))
    return out


def stale_obs(ws):
    obs = []
    for n, (d, f, kinds) in GEN.items():
        if n.startswith(INPLACE) or n.startswith("inner_"):
            continue
        for k in kinds:
            if k.startswith("alias"):
                continue
            base = k if k in ("small", "large", "owned") else "fresh" if "fresh" in kinds else "same"
            if n.startswith(("min_", "max_", "sum_", "mean_")) and not n.startswith(("mean_h", "mean_v")):
                continue
            obs.append(Ob("%s/%s" % (n, k), stale, ws, n, k, base))
    return obs


# ------------------------------------------------------------------ C03 nothing but the output
def frame(ws, name, kind):
    key = "%s/%s" % (name, kind)
    c = gcase(ws, name, kind)
    r = c.r
    out = []
    outs = [o.data for o in c.outs]
    for i in c.ins:
        if i.data not in outs:
            out.append(r.unchanged(i.data, "%s/input:%s" % (key, i.name)))
    for n in ("k.data",):
        if n in c.s.ev.roots:
            out.append(r.unchanged(n, "%s/kernel" % key))
    # fields of the input objects
    names = [i.name for i in c.ins if i.data not in outs] + [n for n in ("k", "b", "f") if n in c.s.ev.roots]
    for n in names:
        bad = []
        for (root, off), v in r.st0.items():
            if root == n and r.st.cells.get((root, off)) is not v:
                w = r.st.cells.get((root, off))
                if isinstance(w, Poly) and isinstance(v, Poly) and r.ctx.entails_eq(r.ctx.simp(w - v)):
                    continue
                if isinstance(w, Ptr) and isinstance(v, Ptr) and w.alts == v.alts:
                    continue
                bad.append(off)
        for (root, off), v in r.st.cells.items():
            if root == n and (root, off) not in r.st0 and isinstance(v, (Poly, Ptr)) and ("w", root, off) in getattr(r.ev, "cellwrites", ()):
                bad.append(off)
        out.append({"key": "%s/object:%s" % (key, n), "status": "refuted" if bad else "proved", "loc": None,
                    "detail": "fields at offset %s of %s change" % (bad, n) if bad else None, "leaves": 1})
    if kind in ("same", "small", "large", "alias", "aliasb"):
        views = [(o.name, o.data, o.offset, o.stride, o.W, o.H, o.ety, o.isint) for o in c.outs]
        if getattr(c, "inter", None):
            a = c.inter[0]
            views.append((a.name, a.data, a.offset, a.stride, a.W * a.B, a.H, a.ety, a.isint))
        for n, data, off, stride, W, H, ety, isint in views:
            if len(r.st.cells.get((n, c.s.offset(c.s.cls_of(n), "data")), mkptr(data)).alts) != 1:
                continue
            w_ = r.writes_at(data)
            acc = check_accesses(c.s, r.ev.trace, {data: Region(images=((off, stride, W, H),))}, random.Random(1), ("st",), tests=200, pre=c.pre)
            for (k, root, loc), x in acc.items():
                out.append({"key": "%s/%s:store@%s" % (key, n, relloc(loc)), "status": "refuted" if x["bad"] else "open" if x["open"] else "proved",
                            "leaves": x["proved"], "sites": x["n"], "loc": loc,
                            "detail": "store to element %s outside the output view for %s" % (x["bad"][1], x["bad"][0]) if x["bad"] else None})
            if all(not x["open"] for x in acc.values()) or any(x["bad"] for x in acc.values()):
                continue
            for part in ("gap", "below", "before"):
                base = r.ctx
                r.ctx = base.child()
                ns = len(r.syms)
                if part == "before":
                    B = r.var("Bb", 0, 7)
                    I = off - 1 - B
                elif part == "below":
                    Y = r.var("Yb", H, H + 3)
                    X = r.var("Xb", 0, stride - 1)
                    I = off + Y * stride + X
                else:
                    Y = r.var("Yg", 0, H - 1)
                    X = r.var("Xg", W, stride - 1)
                    I = off + Y * stride + X
                got = arrays.resolve_read(r.ev.get_arr(r.st, data), I, ety, isint, r.ctx)
                want = T.read(mkarr("init", data), I, ety, isint)
                out.append(r.decide(got, want, "element of the storage outside the view (%s)" % part, key="%s/%s:%s" % (key, n, part),
                                    loc=w_[0] if w_ else None, pre=c.pre))
                r.ctx = base
                del r.syms[ns:]
    return out


def frame_obs(ws):
    return [Ob("%s/%s" % (n, k), frame, ws, n, k) for n in GEN for k in GEN[n][2]]


# ------------------------------------------------------------------ C25 shapes are checked first
def shape_case(ws, name, which):
    """the call with an output (or second input) view of arbitrary other shape"""
    SHAPE[0] = which
    try:
        return gcase(ws, name, "same")
    finally:
        SHAPE[0] = None


def guarded(r, ok, key):
    """no store to an image happens unless ok holds"""
    bad, n = None, 0
    for e, guards, loops, approx in events(r.ev.trace):
        if e[0] != "st" or e[1] not in r.ev.roots or r.ev.roots[e[1]].origin != "param":
            continue
        _, root, idx, ctx, loc, g = e
        n += 1
        c = ctx if g is TRUE else ctx.with_bdd(g)
        for gg in guards:
            c = c.with_bdd(gg)
        c = c.with_bdd(b_not(ok)) if len(list(b_literals(b_not(ok)))) else c
        if c.dead or c.entails(P(-1)) or no_case(b_poly(ok), c):
            continue
        bad = bad or (root, loc)
    return {"key": key, "status": "proved" if bad is None else "open", "sites": n, "leaves": n, "loc": bad[1] if bad else None,
            "detail": None if bad is None else "store to %s not shown to come after the check" % bad[0], "_bad": bad}


def no_case(okp, ctx, depth=0):
    """ok holds in every live case of ctx"""
    if ctx.dead or ctx.entails(P(-1)):
        return True
    okp = ctx.simp(okp)
    if okp is ONE:
        return True
    if okp is ZERO or depth > 6:
        return False
    a = next_gate(okp, ctx, free=True)
    if a is None:
        return False
    return all(no_case(okp, c, depth + 1) for pol, c in gate_cases(a, ctx))


def shapes(ws, name, which):
    key = "%s/%s" % (name, which)
    c = shape_case(ws, name, which)
    r = c.r
    W2, H2 = c.s.s("o.W2"), c.s.s("o.H2")
    ok = b_and(eq0(W2 - c.W), eq0(H2 - c.H))
    out = [r.decide(b_poly(r.g), b_poly(ok), "returns normally exactly for equal shapes", key=key + "/returns", pre=c.pre)]
    out.append(guarded(r, ok, key + "/first"))
    return out


def shape_obs(ws):
    obs = []
    for n, (d, f, kinds) in GEN.items():
        if n.startswith(("avg_", "thr_", "gthr_", "conv_", "erode", "dilate", "land", "lor")):
            obs.append(Ob(n + "/view", shapes, ws, n, "view"))
        if n.startswith("norm_c"):
            obs.append(Ob(n + "/view", shapes, ws, n, "view"))
        elif n.startswith(("norm_", "mean_h", "mean_v")):
            obs.append(Ob(n + "/view", shapes, ws, n, "view"))
            obs.append(Ob(n + "/owned", shapes, ws, n, "owned"))
        if n in ("land", "lor"):
            obs.append(Ob(n + "/inputs", shapes, ws, n, "inputs"))
    return obs
