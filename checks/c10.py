"""Otsu threshold maximises the between-class variance of the histogram."""
from fractions import Fraction
from checks.data import *
from checks.texts import *
from sa.prover import inv_reduce
TECHNIQUE = T_FORM
RULE = rule("For every histogram: the closed form of the threshold and of the variance = the scan over the levels that keeps the first level whose "
            "between-class variance is greatest (classes split after that level, weights and means from the histogram and its total), respectively the "
            "midpoint of the class means there for the second variant, followed by the tuning penalty, the scale and rounding; the image functions count "
            "every pixel once in the bin of its value, pass the pixel count, and apply the level as a pixel value in the requested direction.")
NOTE = NOTE_FORM
ASSUMPTIONS = ASSUME[:1] + ["the total is the sum of the histogram and fits 32 bits", "pixels lie between the minimum and maximum given",
                            "floating point arithmetic is exact (rounding is not modelled)"]
LEVEL = "other"
DRIVERS = ["thresh"]
HALF = Fraction(1, 2)


def level_scan(h, n, tot):
    """(variance, level, mean below, mean above) at the best split"""
    hd = h.init
    q, q2, i = T.fresh("q"), T.fresh("q"), T.fresh("i")
    upto = lambda k: T.ssum(q2, k, hd(P(q2))) + hd(k)
    some = lambda k: ONE - b_poly(eq0(upto(k)))
    allsum = T.ssum(q, n, P(q) * hd(P(q))) * T.inv(n)
    I = P(i)
    wB = upto(I)
    wF = U(32, tot - wB)
    sB = (T.ssum(q, I, P(q) * hd(P(q)) * some(P(q))) + I * hd(I)) * T.inv(n)
    mB, mF = sB * T.inv(wB), (allsum - sB) * T.inv(wF)
    N = T.first(i, n, b_poly(b_and(b_not(eq0(wB)), eq0(tot - wB))))
    vb = inv_reduce(inv_reduce(wB * wF * (mB - mF)) * (mB - mF))
    return i, N, wB, vb, mB, mF


def best(h, n, tot, picks):
    """picks: functions (i,mB,mF) -> value remembered with the best variance; -> [picks..., variance or variance, level]"""
    i, N, wB, vb, mB, mF = level_scan(h, n, tot)
    st = [T.mk("sym", "sv%d.%d" % (k, len(picks)), isint=k == len(picks) == 1) for k in range(1 + len(picks))]
    better = b_and(b_not(eq0(wB)), gt0r(vb - P(st[0])))
    vals = [vb] + [p(P(i), mB, mF) for p in picks]
    nx = [ite(better, v, P(x)) for v, x in zip(vals, st)]
    return [T.fold(i, N, w, tuple(st), (ZERO,) * len(st), tuple(nx)) for w in range(len(st))]


def ftoi(x, n=32, signed=True):
    from checks.c18 import ftoi as f
    return f(n, signed, x)


def finish_level(raw, var, tuning, scale, down):
    adj = ftoi(tuning * raw * tuning * raw * T.inv(var + Fraction(1, 1000)) + HALF)
    t = raw + ite(down, -adj, adj)
    m = ite(gt0r(-t), ZERO, t)
    return ftoi(scale * m + HALF)


def o_hist(w, o2, full, down):
    s = Setup(w)
    h = Grow(s, "h", "U32")
    n = h.size
    s.ctx.add_ge(n - 1)
    q = T.fresh("q")
    tot = T.ssum(q, n, h.init(P(q)))
    for x in ("thr", "var"):
        s.ev.root(x, "array", esz=8, ety=("f", 64), length=ONE, origin="param")
    tuning = val(s, "tuning", "F64") if full else ZERO
    scale = val(s, "scale", "F64") if full else ONE
    key = "otsu%s/%s/%s" % ("2" if o2 else "", "tuned" if full else "plain", "down" if down else "up")
    D = TRUE if down else FALSE
    r = Run(s, "otsu_run", [TRUE if o2 else FALSE, tuning, D, scale, h.ptr, tot, mkptr("thr"), mkptr("var")])
    got = {x: arrays.resolve_read(r.ev.get_arr(r.st, x), ZERO, ("f", 64), False, r.ctx) for x in ("thr", "var")}
    if o2:
        var, mb, mf = best(h, n, tot, [lambda i, a, b: a, lambda i, a, b: b])
        raw = n * (mb + mf) * HALF
    else:
        var, raw = best(h, n, tot, [lambda i, a, b: i])
    want = finish_level(raw, var, tuning, scale, D)
    return [r.returns(key + "/returns"), r.unchanged("h.data", key + "/frame"),
            r.decide(got["var"], var + Fraction(1, 1000), "variance", key=key + "/variance", n=150),
            r.decide(got["thr"], want, "threshold", key=key + "/threshold", n=150)] + \
        r.accesses({"h.data": Region(length=n)}, key + "/access", tests=60)


HISTCMP = "_ZN6boofcv11ComputeOtsu7computeERKNS_9GrowArrayIjEEj"


def hooked(s, lvl, seen):
    """stand-in for ComputeOtsu::compute (decided above): records what it is given and sets the level"""
    def h(ev, args, st, ctx, loc, ins):
        o, hist, total = args
        (root, base), (hr, hb) = o.single(), hist.single()
        f = lambda r, b, cls, n: st.cells.get((r, int(b.const()) + s.offset(cls, n)))
        seen.append(dict(total=U(32, total), loc=loc, useOtsu2=f(root, base, "ComputeOtsu", "useOtsu2"), tuning=f(root, base, "ComputeOtsu", "tuning"),
                         scale=f(root, base, "ComputeOtsu", "scale"), size=f(hr, hb, "GrowArray<unsigned int>", "size"),
                         data=f(hr, hb, "GrowArray<unsigned int>", "data"), arrs=dict(st.cells), st=st, guard=ctx))
        k = ctx.child() if hasattr(ctx, "child") else ctx
        kk = P(T.fresh("bin"))
        seen[-1]["bin"] = (kk, read_ptr(s, st, seen[-1]["data"], kk, ("u", 32), True, k))
        st.cells[(root, int(base.const()) + s.offset("ComputeOtsu", "threshold"))] = lvl
        st.cells[(root, int(base.const()) + s.offset("ComputeOtsu", "variance"))] = P(T.fresh("variance", isint=False))
        return None
    s.ev.hooks[("fn", HISTCMP)] = h


def o_img(w, pix, filt):
    key = "%s/%s%s" % ("filter" if filt else "image", pix, "/" + filt if filt else "")
    s = Setup(w)
    W, H = dims(s)
    a = Img(s, "a", pix, W, H, sub=True)
    if pix == "U8":
        lo, hi = s.s("lo", 0, 255), s.s("hi", 0, 255)
    else:
        lo, hi = s.s("lo", -1000, 1000), s.s("hi", -1000, 1000)
    s.ctx.add_ge(hi - lo)
    lvl = s.s("level", 0, 65535)
    s.ctx.add_ge(hi - lo - lvl)
    seen = []
    hooked(s, lvl, seen)
    isint = pix == "U8"

    if filt:
        d = scalar(s, "down", "U8")
        s.ctx.add_ge(ONE - d)
        o = out_image(s, filt, "o", "U8", W, H)
        f = s.obj("f", "GlobalOtsuBinaryFilter<%s>" % CPP[pix], {"min_value": lo, "max_value": hi, "down": d})
        r = Run(s, "otsu_filter_" + pix, [f, a.ptr, o.ptr])
    else:
        r = Run(s, "otsu_img_" + pix, [a.ptr, lo, hi])
    r.pre = covers(a, lo, hi - lo + 1)
    out = [r.returns(key + "/returns"), r.unchanged(a.data, key + "/frame")]
    if len(seen) != 1:
        return out + [{"key": key + "/histogram", "status": "open", "detail": "%d histogram computations seen" % len(seen)}]
    z = seen[0]
    for n, want in (("total", W * H), ("size", hi - lo + 1), ("useOtsu2", ZERO), ("tuning", ZERO), ("scale", ONE)):
        g = z[n]
        out.append(r.decide(g, want, n + " given to the threshold computation", key=key + "/" + n, loc=z["loc"]))
    k, v = z["bin"]
    r.syms.append(k.atom())
    r.ctx.add_ge(k)
    r.ctx.add_ge(hi - lo - k)
    i, j = T.fresh("p"), T.fresh("q")
    want = T.ssum(i, H, T.ssum(j, W, b_poly(eq0(bin_of(a.px(P(j), P(i)) - lo, isint) - k))))
    out.append(r.decide(v, want, "bin k of the histogram", key=key + "/bin", loc=z["loc"]))
    if filt:
        out.append(r.decide(o.field(r.st, "width"), W, "output width", key=key + "/width"))
        out.append(r.decide(o.field(r.st, "height"), H, "output height", key=key + "/height"))
        X, Y = r.var("X", 0, W - 1), r.var("Y", 0, H - 1)
        t = lvl + lo
        below = ONE - b_poly(gt0r(a.px(X, Y) - t))
        spec = d * below + (ONE - d) * (ONE - below)
        w_ = r.writes_at(o.data)
        out.append(r.decide(o.final(r.st, X, Y, r.ctx), spec, "output pixel (X,Y)", key=key + "/pixel", loc=w_[0] if w_ else None))
    else:
        out.append(r.decide(r.ret, lvl + lo, "returned threshold", key=key + "/value"))
    return out


def bin_of(v, isint):
    return v if isint else ftoi(v, 32, True)


def obligations(ws, tier):
    w = ws["thresh"]
    obs = []
    for pix in ("U8", "F32"):
        for filt in (None, "same", "fresh", "larger"):
            obs.append(Ob("%s/%s%s" % ("filter" if filt else "image", pix, "/" + filt if filt else ""), o_img, w, pix, filt))
    for o2 in (False, True):
        for full in (False, True):
            for down in (True, False):
                obs.append(Ob("otsu%s/%s/%s" % ("2" if o2 else "", "tuned" if full else "plain", "down" if down else "up"), o_hist, w, o2, full, down))
    return obs
