"""Mean and Gaussian blur."""
from checks.ops import *
from checks.texts import *
from checks.c05 import overlap, average
from checks.data import CPPT
from sa import arrays
TECHNIQUE = T_FORM
RULE = rule("Output pixel (X,Y) of mean and Gaussian blur = average over the clipped window, horizontal pass then vertical pass.")
NOTE = NOTE_FORM
ASSUMPTIONS = ASSUME
LEVEL = "other"
DRIVERS = ["blur"]


def window(n, z, rad):
    """[lo,hi] of the window around z clipped to [0,n)"""
    return ite(ge0(z - rad), z - rad, ZERO), ite(ge0(n - 1 - z - rad), z + rad, n - 1)


def avg(pix, lo, hi, f):
    n = hi - lo + 1
    t = clampsum(lo, hi, f)
    return t * T.inv(n) if pix[0] == "F" else T.div(t + T.div(n, P(2)), n)


def mean_1d(w, op, pix, kind, var=None):
    key = "mean_%s_%s/%s" % (op, pix, kind)
    s = Setup(w)
    W, H = dims(s)
    a = Img(s, "a", pix, W, H, sub=True)
    o = Img(s, "o", pix, W, H, sub=True)
    rad = s.s("r", 1)
    if kind == "small":
        s.ctx.add_ge(rad * 2 - (W if op == "h" else H))
    else:
        s.ctx.add_ge((W if op == "h" else H) - rad * 2 - 1)
    r = Run(s, "mean_%s_%s" % (op, pix), [a.ptr, o.ptr, rad])
    out = [r.returns(key + "/returns")]
    X, Y = r.var("X", 0, W - 1), r.var("Y", 0, H - 1)
    got = o.final(r.st, X, Y, r.ctx)
    lo, hi = window(W if op == "h" else H, X if op == "h" else Y, rad)
    spec = avg(pix, lo, hi, (lambda q: a.px(q, Y)) if op == "h" else (lambda q: a.px(X, q)))
    w_ = r.writes_at("o.data")
    out.append(r.decide(got, spec, "output pixel (X,Y)", loc=w_[0] if w_ else None, key=key + "/pixel"))
    return out


# ------------------------------------------------------------------ composites
def note(s, *names):
    for n in names:
        s.ev.root(n, "array", esz=8, ety=("s", 64), length=ONE, origin="ghost")


def put(ev, st, n, v, loc):
    if isinstance(v, BDD):
        v = b_poly(v)
    if isinstance(v, Poly):
        ev.arr_store(st, n, TRUE, ZERO, v, loc)


def said(s, r, n, isint=True):
    return arrays.resolve_read(s.ev.get_arr(r.st, n), ZERO, ("s", 64) if isint else ("f", 64), isint, r.ctx)


KER = {"U8": "S32", "S16": "S32", "F32": "F32"}
STEPS = {"mean": ("17ConvolveImageMean10horizontal", "17ConvolveImageMean8vertical"),
         "gauss": ("18ConvolveNormalized10horizontal", "18ConvolveNormalized8vertical")}


def composite(w, op, pix, kind, skind):
    """horizontal pass of the input into the work image, vertical pass of the work image into the output; same radius / same kernel"""
    key = "%s_%s/%s-%s" % ("norm_c" if op == "norm" else "blur_" + op, pix, kind, skind)
    s = Setup(w)
    W, H = dims(s)
    a = Img(s, "a", pix, W, H, sub=True)
    o = out_image(s, kind, "o", pix, W, H)
    t = out_image(s, skind, "t", pix, W, H)
    names = ["g.seq"] + ["g.%s%d" % (n, i) for i in (1, 2) for n in ("src", "dst", "w", "h", "iw", "ih", "sub", "arg", "same")]
    note(s, *names)
    rad = s.s("r", 1, 1 << 20)
    norm = op == "norm"
    if norm:
        from checks.c04 import kernel
        k0, width, _ = kernel(s, CPP[SIGNED[pix]], 1)
    else:
        sigma, width = fscalar(s, "sigma"), s.s("kw")
    s.ev.root("kern", "array", esz=PIX[KER[pix]][1] // 8, ety=PIX[KER[pix]][:2], length=s.s("klen", 1), origin="param")
    made = []
    if norm:
        q = k0.single()
        made.append((None, None, (q[0], int(q[1].const())), None, ""))

    def gaussian(ev, args, st, ctx, loc, ins):
        root, base = args[0].single()
        b = int(base.const())
        cls = "Kernel1D<%s>" % CPPT[KER[pix]]
        f = lambda n, v: st.cells.__setitem__((root, b + s.offset(cls, n)), v)
        n = ctx.simp(U(32, s.s("made", 1)))
        f("width", n)
        f("offset", P(T.fresh("anchor")))
        f("data.data", mkptr("kern"))
        f("data.size", n)
        f("data.array_length", n)
        f("data.can_resize", ZERO)
        made.append((args[1], ctx.simp(S(32, args[2])), (root, b), loc, str(ins)))
        return None

    kdata = "k.data" if norm else "kern"

    def stage(which):
        def h(ev, args, st, ctx, loc, ins):
            img = args if op == "mean" else args[1:]
            k = 0
            seq = arrays.resolve_read(ev.get_arr(st, "g.seq"), ZERO, ("s", 64), True, ctx)
            cnt = seq.const()
            n = 1 if cnt is None or cnt == 0 else 2
            put(ev, st, "g.seq", seq * 10 + which, loc)
            who = lambda p: p * 0 if not isinstance(p, Ptr) else sum((b_poly(g) * {"a": 1, "t": 2, "o": 3}.get(rt, 9) for g, rt, off in p.alts), ZERO)
            put(ev, st, "g.src%d" % n, who(img[0]), loc)
            put(ev, st, "g.dst%d" % n, who(img[1]), loc)
            d, i = img[1].single(), img[0].single()
            for im, nm in ((i, "i"), (d, "")):
                q = {"a": a, "t": t, "o": o}.get(im[0]) if im else None
                if q is not None:
                    put(ev, st, "g.%sw%d" % (nm, n), q.field(st, "width"), loc)
                    put(ev, st, "g.%sh%d" % (nm, n), q.field(st, "height"), loc)
            if op == "mean":
                put(ev, st, "g.arg%d" % n, ctx.simp(U(32, img[2])), loc)
            else:
                kp = args[0].single()
                ok = kp is not None and made and kp == (made[0][2][0], P(made[0][2][1]))
                if not ok and kp is not None:
                    p = st.cells.get((kp[0], int(kp[1].const()) + s.offset("Kernel1D<%s>" % CPPT[KER[pix]], "data.data")))
                    ok = isinstance(p, Ptr) and p.single() is not None and p.single()[0] == kdata
                put(ev, st, "g.arg%d" % n, P(1 if ok else 0), loc)
                put(ev, st, "g.same%d" % n, P(1 if ev.get_arr(st, kdata).kind == "init" else 0), loc)
            return None
        return h
    for n in w.mod.functions:
        for k, nm in enumerate(STEPS["mean" if op == "mean" else "gauss"]):
            if n.startswith("_ZN6boofcv" + nm):
                s.ev.hooks[("fn", n)] = stage(k + 1)
        if op == "gauss" and n.startswith("_ZN6boofcv13FactoryKernel10gaussian1D"):
            s.ev.hooks[("fn", n)] = gaussian
    s.st.arrs["g.seq"] = mkarr("st", "g.seq", mkarr("init", "g.seq"), mknode("st", TRUE, ZERO, ZERO, None))
    r = Run(s, "norm_c_%s" % pix, [k0, a.ptr, o.ptr, t.ptr]) if norm else \
        Run(s, "blur_%s_%s" % (op, pix), [a.ptr, o.ptr] + ([rad] if op == "mean" else [sigma, width]) + [t.ptr])
    out = [r.returns(key + "/returns"), r.unchanged(a.data, key + "/frame")]
    seq = said(s, r, "g.seq")
    if seq.const() is None or not 1 <= int(seq.const()) <= 99 or int(seq.const()) < 10:
        return out + [{"key": key + "/passes", "status": "open", "detail": "passes not identified: %s" % str(seq)[:200]}]
    D = lambda n, want, what: out.append(r.decide(said(s, r, n), want, what, key=key + "/" + n[2:]))
    D("g.seq", P(12), "a horizontal, then a vertical pass")
    D("g.src1", ONE, "first pass reads the input")
    D("g.dst1", P(2), "first pass writes the work image")
    D("g.src2", P(2), "second pass reads the work image")
    D("g.dst2", P(3), "second pass writes the output")
    for i in (1, 2):
        D("g.w%d" % i, W, "width of the image pass %d writes" % i)
        D("g.h%d" % i, H, "height of the image pass %d writes" % i)
    D("g.iw2", W, "width of the image pass 2 reads")
    D("g.ih2", H, "height of the image pass 2 reads")
    for i in (1, 2):
        D("g.arg%d" % i, rad if op == "mean" else ONE, "radius of pass %d" % i if op == "mean" else "kernel of pass %d is the %s one" % (i, "given" if norm else "Gaussian"))
        if op != "mean":
            D("g.same%d" % i, ONE, "kernel of pass %d unchanged" % i)
    if op == "gauss":
        for k, m in enumerate(made):
            out.append(r.decide(m[0], sigma, "sigma of the kernel", key="%s/sigma%d" % (key, k), loc=m[3]))
            out.append(r.decide(m[1], width, "width of the kernel", key="%s/width%d" % (key, k), loc=m[3]))
    for i, n in ((o, "output"), (t, "work image")):
        out.append(r.decide(i.field(r.st, "width"), W, n + " width", key="%s/%s-width" % (key, i.name)))
        out.append(r.decide(i.field(r.st, "height"), H, n + " height", key="%s/%s-height" % (key, i.name)))
    return out


def obligations(ws, tier):
    w = ws["blur"]
    obs = []
    for pix in ("U8", "S16", "F32"):
        for op in "hv":
            for kind in ("small", "large"):
                obs.append(Ob("mean_%s_%s/%s" % (op, pix, kind), mean_1d, w, op, pix, kind))
    for pix in ("U8", "S16", "F32"):
        for op in ("mean", "gauss"):
            for kind, sk in (("same", "same"), ("fresh", "larger"), ("larger", "fresh")):
                obs.append(Ob("blur_%s_%s/%s-%s" % (op, pix, kind, sk), composite, w, op, pix, kind, sk))
    return obs
