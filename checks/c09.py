"""Local and block thresholds compare with their neighbourhood statistics."""
from fractions import Fraction
from checks.data import *
from checks.texts import *
from sa import interp
TECHNIQUE = T_FORM
RULE = rule("For every image size, block size and option: the block size = the image divided by the whole number of requested blocks, the statistics image has "
            "one element per block, statistics are requested once per block for exactly its pixels (the last row and column of blocks end at the image edge), "
            "the threshold step is requested once per block, each block statistic = its defining reduction over the block's pixels, and each pixel of a block "
            "is compared with the statistics of the block or its 3x3 neighbours clipped to the image; the local mean threshold compares with the scaled mean.")
NOTE = NOTE_FORM
ASSUMPTIONS = ASSUME[:1] + ["floating point arithmetic is exact (rounding is not modelled)", "scaled statistics fit the pixel type"]
LEVEL = "other"
DRIVERS = ["block", "thresh"]
HALF = Fraction(1, 2)
KINDS = [("Mean", "U8"), ("Mean", "F32"), ("MinMax", "U8"), ("MinMax", "F32"), ("Otsu", "U8")]
STAT = {"Mean": None, "MinMax": None, "Otsu": "S32"}
BANDS = {"Mean": 1, "MinMax": 2, "Otsu": 256}


class Blk:
    """a block filter with symbolic configuration"""

    def __init__(self, s, kind, pix, SW, SH, bw, bh, local=None, **fields):
        self.s, self.kind, self.pix = s, kind, pix
        self.spix = STAT[kind] or pix
        self.B = BANDS[kind]
        self.cls = "ThresholdBlock%s<%s>" % (kind, CPP[pix])
        self.data = "f.stats"
        self.SW, self.SH, self.bw, self.bh = P(SW), P(SH), bw, bh
        n = self.SW * self.SH * self.B
        dl = s.s("f.data_length", 0)
        s.ctx.add_ge(dl - n)
        s.array(self.data, self.spix, dl, heap="_Znam")
        d = s.s("down", 0, 1)
        self.local = s.s("local", 0, 1) if local is None else P(local)
        f = {"stats.width": self.SW, "stats.height": self.SH, "stats.offset": ZERO, "stats.stride": self.SW * self.B, "stats.num_bands": self.B,
             "stats.data_length": dl, "stats.data": mkptr(self.data), "stats.subimage": 0, "thresholdFromLocalBlocks": self.local}
        if bw is not None:
            f.update({"blockWidth": bw, "blockHeight": bh})
        if kind == "Otsu":
            s.array("f.hist", "U32", P(256), heap="_Znam")
            f.update({"histogram.data": mkptr("f.hist"), "histogram.size": 256, "histogram.array_length": 256, "histogram.can_resize": 1,
                      "histogram.default_value": 0, "otsu.down": d})
        else:
            self.scale = fscalar(s, "scale")
            interp.REAL_RANGE["scale"] = (0, 1) if pix == "U8" else (0, 2)
            f.update({"down": d, "scale": self.scale})
        if kind == "MinMax":
            self.spread = fscalar(s, "spread")
            interp.REAL_RANGE["spread"] = (-1, 4)
            f["minimumSpread"] = self.spread
        self.down = d
        f.update(fields)
        self.ptr = s.obj("f", self.cls, f)
        cls2 = {"U8": "IhE", "F32": "IfE"}[pix]
        m = "ThresholdBlock" + kind
        for off, vt in ((0, "_ZTVN6boofcv%d%s%sE" % (len(m), m, cls2)),
                        (s.offset(self.cls, "stats"), "_ZTVN6boofcv11InterleavedI%sEE" % {"U8": "h", "F32": "f", "S32": "i"}[self.spix])):
            if vt in s.w.mod.globals:
                s.ev.const_ptr("@" + vt)
                s.st.cells[("f", off)] = mkptr(vt, P(16))
        self.ety = s.ev.roots[self.data].ety
        self.isint = self.spix[0] != "F"

    def stat(self, bx, by, b=0):
        return T.read(mkarr("init", self.data), (by * self.SW + bx) * self.B + b, self.ety, self.isint)

    def field(self, st, n):
        return self.s.get(st, "f", self.cls, n)

    def name(self, fn):
        return "ThresholdBlock%s_%s_%s" % (self.kind, fn, self.pix)

    def method(self, which):
        """mangled names of the functions with this short name"""
        return [n for n in self.s.w.mod.functions if "%d%sE" % (len(which), which) in n and n.startswith("_ZN6boofcv")]


def key_of(kind, pix, what):
    return "%s/%s/%s" % (kind, pix, what)


def o_select(w, kind, pix):
    key = key_of(kind, pix, "size")
    s = Setup(w)
    W, H, q = s.s("W", 1), s.s("H", 1), s.s("req", 1)
    s.ctx.add_ge(W - q)
    s.ctx.add_ge(H - q)
    f = Blk(s, kind, pix, s.s("SW", 0), s.s("SH", 0), None, None)
    r = Run(s, f.name("select"), [f.ptr, W, H, q])
    return [r.returns(key + "/returns"),
            r.decide(f.field(r.st, "blockWidth"), T.div(W, T.div(W, q)), "block width", key=key + "/width"),
            r.decide(f.field(r.st, "blockHeight"), T.div(H, T.div(H, q)), "block height", key=key + "/height")]


def ghost(s, *names):
    for n in names:
        s.ev.root(n, "array", esz=8, ety=("s", 64), origin="param")


def tiling(s, split):
    """sizes of an image of SW x SH blocks; split: the last block of the axis is larger"""
    bw, bh = s.s("bw", 1), s.s("bh", 1)
    if split[0]:
        s1, rw = s.s("SW1", 0), s.s("rw", 1)
        s.ctx.add_ge(bw - 1 - rw)
        SW, IW, W = s1 + 1, s1 * bw, s1 * bw + bw + rw
    else:
        SW = s.s("SW", 1)
        IW = W = SW * bw
    if split[1]:
        s1, rh = s.s("SH1", 0), s.s("rh", 1)
        s.ctx.add_ge(bh - 1 - rh)
        SH, IH, H = s1 + 1, s1 * bh, s1 * bh + bh + rh
    else:
        SH = s.s("SH", 1)
        IH = H = SH * bh
    return bw, bh, SW, SH, IW, IH, W, H


SPLITS = {"even": (0, 0), "wide": (1, 0), "tall": (0, 1), "both": (1, 1)}


def o_stats(w, kind, pix, split):
    key = key_of(kind, pix, "tiles/" + split)
    s = Setup(w)
    bw, bh, SW, SH, IW, IH, W, H = tiling(s, SPLITS[split])
    f = Blk(s, kind, pix, SW, SH, bw, bh)
    a = Img(s, "a", pix, W, H, sub=True)
    names = ("g.x", "g.y", "g.w", "g.h", "g.n")
    lev = None
    if kind == "Otsu":
        lev = s.s("level", 0, 255)
        ghost(s, "g.z")
    ghost(s, *names)

    def h(ev, args, st, ctx, loc, ins):
        idx = ctx.simp(U(32, args[5]))
        for n, v in zip(names, args[1:5]):
            ev.arr_store(st, n, TRUE, idx, ctx.simp(U(32, v)), loc)
        old = arrays.resolve_read(ev.get_arr(st, "g.n"), idx, ("s", 64), True, ctx)
        ev.arr_store(st, "g.n", TRUE, idx, old + 1, loc)
        if lev is not None:
            ev.arr_store(st, "g.z", TRUE, idx, arrays.resolve_read(ev.get_arr(st, f.data), idx + lev, f.ety, True, ctx), loc)
        return None
    for n in f.method("computeBlockStatistics"):
        s.ev.hooks[("fn", n)] = h
    r = Run(s, f.name("stats"), [f.ptr, a.ptr, IW, IH])
    X, Y = r.var("BX", 0, SW - 1), r.var("BY", 0, SH - 1)
    get = lambda n: arrays.resolve_read(s.ev.get_arr(r.st, n), (Y * SW + X) * f.B, ("s", 64), True, r.ctx)
    lastx, lasty = eq0(X - SW + 1), eq0(Y - SH + 1)
    out = [r.returns(key + "/returns"), r.unchanged(a.data, key + "/frame")]
    init = T.read(mkarr("init", "g.n"), (Y * SW + X) * f.B, ("s", 64), True)
    if lev is not None:
        out.append(r.decide(get("g.z"), ZERO, "histogram bin of block (BX,BY) before its pixels are counted", key=key + "/cleared", n=100))
    for n, want, what in (("g.n", init + 1, "requests for the statistics of block (BX,BY)"), ("g.x", X * bw, "left edge of block (BX,BY)"),
                          ("g.y", Y * bh, "top edge of block (BX,BY)"), ("g.w", ite(lastx, W - X * bw, bw), "width of block (BX,BY)"),
                          ("g.h", ite(lasty, H - Y * bh, bh), "height of block (BX,BY)")):
        wl = r.writes_at(n)
        out.append(r.decide(get(n), want, what, key=key + "/" + n[2:], n=200))
    return out


def o_apply(w, kind, pix):
    key = key_of(kind, pix, "blocks")
    s = Setup(w)
    SW, SH = s.s("SW", 1), s.s("SH", 1)
    W, H = s.s("W", 1), s.s("H", 1)
    f = Blk(s, kind, pix, SW, SH, s.s("bw", 1), s.s("bh", 1))
    a = Img(s, "a", pix, W, H, sub=True)
    o = Img(s, "o", "U8", W, H, sub=True)
    ghost(s, "g.n", "g.i", "g.o")

    def h(ev, args, st, ctx, loc, ins):
        idx = ctx.simp(U(32, args[2])) * SW + ctx.simp(U(32, args[1]))
        old = arrays.resolve_read(ev.get_arr(st, "g.n"), idx, ("s", 64), True, ctx)
        ev.arr_store(st, "g.n", TRUE, idx, old + 1, loc)
        ev.arr_store(st, "g.i", TRUE, idx, points_to(args[3], "a"), loc)
        ev.arr_store(st, "g.o", TRUE, idx, points_to(args[4], "o"), loc)
        return None
    for n in f.method("thresholdBlock"):
        s.ev.hooks[("fn", n)] = h
    r = Run(s, f.name("apply"), [f.ptr, a.ptr, o.ptr])
    X, Y = r.var("BX", 0, SW - 1), r.var("BY", 0, SH - 1)
    get = lambda n: arrays.resolve_read(s.ev.get_arr(r.st, n), Y * SW + X, ("s", 64), True, r.ctx)
    init = T.read(mkarr("init", "g.n"), Y * SW + X, ("s", 64), True)
    return [r.returns(key + "/returns"), r.unchanged(a.data, key + "/frame"),
            r.decide(get("g.n"), init + 1, "times block (BX,BY) is thresholded", key=key + "/once"),
            r.decide(get("g.i"), ONE, "block (BX,BY) is thresholded from the input image", key=key + "/input"),
            r.decide(get("g.o"), ONE, "block (BX,BY) is written to the output image", key=key + "/output")]


def trunc(pix, x):
    """conversion of a computed statistic to the type it is stored in"""
    return x if pix[0] == "F" else ftoi(x)


def ftoi(x, n=32, signed=True):
    from checks.c18 import ftoi as f
    return f(n, signed, x)


def o_bstat(w, kind, pix):
    key = key_of(kind, pix, "statistic")
    s = Setup(w)
    SW, SH = s.s("SW", 1), s.s("SH", 1)
    W, H = s.s("W", 1), s.s("H", 1)
    x0, y0 = s.s("x0", 0), s.s("y0", 0)
    bw, bh = s.s("w", 1), s.s("h", 1)
    s.ctx.add_ge(W - x0 - bw)
    s.ctx.add_ge(H - y0 - bh)
    BX, BY = s.s("BX", 0), s.s("BY", 0)
    s.ctx.add_ge(SW - 1 - BX)
    s.ctx.add_ge(SH - 1 - BY)
    f = Blk(s, kind, pix, SW, SH, s.s("bw", 1), s.s("bh", 1))
    a = Img(s, "a", pix, W, H, sub=True)
    idx = (BY * SW + BX) * f.B
    r = Run(s, f.name("bstat"), [f.ptr, x0, y0, bw, bh, idx, a.ptr])
    i, j = T.fresh("p"), T.fresh("q")
    px = a.px(x0 + P(j), y0 + P(i))
    out = [r.returns(key + "/returns"), r.unchanged(a.data, key + "/frame")]
    fin = lambda k: arrays.resolve_read(s.ev.get_arr(r.st, f.data), idx + k, f.ety, f.isint, r.ctx)
    pre = None
    wl = r.writes_at(f.data)
    loc = wl[-1] if wl else None
    if kind == "Mean":
        mean = f.scale * T.ssum(i, bh, T.ssum(j, bw, px)) * T.inv(bw * bh)
        want = mean if pix[0] == "F" else ftoi(mean + HALF)

        def pre(it):
            return 0 <= it.poly(f.scale) <= 1
        out.append(r.decide(cast_to(pix, fin(0)) if f.isint else fin(0), want, "statistic of the block", key=key + "/mean", loc=loc, pre=pre, n=200))
        nb = 1
    elif kind == "MinMax":
        # extremum: no pixel beyond it, and attained
        for k, nm in ((0, "min"), (1, "max")):
            out.append(r.decide(fin(k), extremum(a, x0, y0, bw, bh, nm), nm + " of the block", key=key + "/" + nm, loc=loc, n=200))
        nb = 2
    else:
        k = r.var("level", 0, 255)
        want = f.stat(BX, BY, k) + T.ssum(i, bh, T.ssum(j, bw, b_poly(eq0(px - k))))
        out.append(r.decide(fin(k), want, "histogram bin of the block", key=key + "/bin", loc=loc, n=200))
        nb = 256
    # other blocks keep their statistics
    q = r.var("other", 0, SW * SH * f.B - 1)
    this = b_and(ge0(q - idx), ge0(idx + nb - 1 - q))
    got = arrays.resolve_read(s.ev.get_arr(r.st, f.data), q, f.ety, f.isint, r.ctx)
    want = T.read(mkarr("init", f.data), q, f.ety, f.isint)
    out.append(r.decide(ite(this, ZERO, got), ite(this, ZERO, want), "statistics of another block", key=key + "/others", loc=loc))
    return out


def extremum(a, x0, y0, w, h, nm):
    """running minimum or maximum over the block in row order, starting with the first pixel"""
    i, j = T.fresh("i"), T.fresh("j")
    first = a.px(x0, y0)
    return T.red(nm, i, h, first, T.red(nm, j, w, first, a.px(x0 + P(j), y0 + P(i))))


def o_block(w, kind, pix, where):
    """threshold of one block; where: (horizontal, vertical) position"""
    key = key_of(kind, pix, "threshold/" + where)
    s = Setup(w)
    bw, bh = s.s("bw", 1), s.s("bh", 1)
    SW, SH = s.s("SW", 1), s.s("SH", 1)
    rw, rh = s.s("rw", 0), s.s("rh", 0)
    s.ctx.add_ge(bw - 1 - rw)
    s.ctx.add_ge(bh - 1 - rh)
    W, H = SW * bw + rw, SH * bh + rh
    BX, BY = s.s("BX", 0), s.s("BY", 0)
    s.ctx.add_ge(SW - 1 - BX)
    s.ctx.add_ge(SH - 1 - BY)
    loc9 = {"own": 0, "near": 1}[where]
    f = Blk(s, kind, pix, SW, SH, bw, bh, local=loc9)
    a = Img(s, "a", pix, W, H, sub=True)
    o = Img(s, "o", "U8", W, H, sub=True)
    level = None
    seen = []
    if kind == "Otsu":
        level = s.s("level", 0, 255)

        def h(ev, args, st, ctx, loc, ins):
            (root, base), (hr, hb) = args[0].single(), args[1].single()
            off = lambda cls, b, n: int(b.const()) + s.offset(cls, n)
            k = P(T.fresh("bin"))
            data = st.cells.get((hr, off("GrowArray<unsigned int>", hb, "data")))
            seen.append(dict(total=ctx.simp(U(32, args[2])), bin=k, value=read_ptr(s, st, data, k, ("u", 32), True, ctx), loc=loc,
                             obj=(root, base), size=st.cells.get((hr, off("GrowArray<unsigned int>", hb, "size")))))
            st.cells[(root, off("ComputeOtsu", base, "threshold"))] = level
            return None
        s.ev.hooks[("fn", "_ZN6boofcv11ComputeOtsu7computeERKNS_9GrowArrayIjEEj")] = h
    r = Run(s, f.name("block"), [f.ptr, BX, BY, a.ptr, o.ptr])
    out = [r.returns(key + "/returns"), r.unchanged(a.data, key + "/frame"), r.unchanged(f.data, key + "/stats")]
    lx, ly = (BX, BX), (BY, BY)
    if loc9:
        lx = (ite(ge0(BX - 1), BX - 1, ZERO), ite(ge0(SW - 2 - BX), BX + 1, SW - 1))
        ly = (ite(ge0(BY - 1), BY - 1, ZERO), ite(ge0(SH - 2 - BY), BY + 1, SH - 1))
    nx, ny = lx[1] - lx[0] + 1, ly[1] - ly[0] + 1
    i, j = T.fresh("p"), T.fresh("q")
    X, Y = r.var("X", 0, W - 1), r.var("Y", 0, H - 1)
    px = a.px(X, Y)
    pre = None
    if kind == "Mean":
        t = T.ssum(i, ny, T.ssum(j, nx, f.stat(lx[0] + P(j), ly[0] + P(i))))
        t = t * T.inv(nx * ny) if pix[0] == "F" else T.div(t, nx * ny)
        below = rle(px, t, pix)
        bit = ite(eq0(f.down - 1), b_poly(below), ONE - b_poly(below))
    elif kind == "MinMax":
        mn, mx = [extreme_stat(f, lx[0], ly[0], nx, ny, nm) for nm in ("min", "max")]
        mid = T.div(mn + mx, P(2)) if pix[0] != "F" else (mn + mx) * HALF
        avg = f.scale * mid
        avg = avg if pix[0] == "F" else ftoi(avg, 32, False)
        below = rle(px, avg, pix)
        flat = b_not(gt0r(mx - mn - f.spread))
        bit = ite(flat, ONE, ite(eq0(f.down - 1), b_poly(below), ONE - b_poly(below)))

        def pre(it):
            return 0 <= it.poly(f.scale)
    else:
        if len(seen) != 1:
            return out + [{"key": key + "/histogram", "status": "open", "detail": "%d threshold computations seen" % len(seen)}]
        z = seen[0]
        k = z["bin"]
        r.syms.append(k.atom())
        r.ctx.add_ge(k)
        r.ctx.add_ge(255 - k)
        want = lambda k: T.ssum(i, ny, T.ssum(j, nx, f.stat(lx[0] + P(j), ly[0] + P(i), k)))
        q = T.fresh("q")
        out.append(r.decide(U(32, z["value"]) if z["value"] is not None else None, U(32, want(k)), "combined histogram bin", key=key + "/bin", loc=z["loc"], n=40))
        out.append(r.decide(z["size"], P(256), "bins of the combined histogram", key=key + "/bins", loc=z["loc"]))
        out.append(r.decide(z["total"], U(32, T.ssum(q, P(256), want(P(q)))), "pixels in the combined histogram", key=key + "/total", loc=z["loc"], n=40))
        below = ge0(level - px)
        bit = ite(eq0(f.down - 1), b_poly(below), ONE - b_poly(below))
    x0, y0 = BX * bw, BY * bh
    x1 = ite(eq0(BX - SW + 1), W, x0 + bw)
    y1 = ite(eq0(BY - SH + 1), H, y0 + bh)
    mine = b_and(b_and(ge0(X - x0), ge0(x1 - 1 - X)), b_and(ge0(Y - y0), ge0(y1 - 1 - Y)))
    wl = r.writes_at(o.data)
    out.append(r.decide(o.final(r.st, X, Y, r.ctx), ite(mine, bit, o.px(X, Y)), "output pixel (X,Y)", key=key + "/pixel", loc=wl[0] if wl else None,
                        pre=pre, n=200))
    return out


def rle(a, b, pix):
    return ge0(b - a) if pix[0] != "F" else b_not(gt0r(a - b))


def extreme_stat(f, x0, y0, nx, ny, nm):
    i, j = T.fresh("i"), T.fresh("j")
    isint = f.isint
    st1, st2 = T.mk("sym", "es1" + nm, isint=isint), T.mk("sym", "es2" + nm, isint=isint)
    init = {"U8": {"min": 255, "max": 0}, "F32": {"min": FLT_MAX, "max": -FLT_MAX}}[f.pix][nm]
    p = f.stat(x0 + P(j), y0 + P(i), 0 if nm == "min" else 1)
    d = P(st2) - p if nm == "min" else p - P(st2)
    g = ge0(d - 1) if isint else gt0r(d)
    inner = T.fold(j, nx, 0, (st2,), (P(st1),), (ite(g, p, P(st2)),))
    return T.fold(i, ny, 0, (st1,), (P(init),), (inner,))


def o_process(w, kind, pix):
    """which images are accepted"""
    key = key_of(kind, pix, "process")
    s = Setup(w)
    W, H = s.s("W", 1), s.s("H", 1)
    f = Blk(s, kind, pix, s.s("SW", 0), s.s("SH", 0), s.s("oldbw", 0), s.s("oldbh", 0))
    length, fraction = fscalar(s, "length"), fscalar(s, "fraction")
    for n, v in (("length", length), ("fraction", fraction)):
        s.st.cells[("f", s.offset(f.cls, "requestedBlockWidth." + n))] = v
    a = Img(s, "a", pix, W, H, sub=True)
    o = Img(s, "o", "U8", W, H, sub=True)
    for n in f.method("computeStatistics") + f.method("applyThreshold"):
        s.ev.hooks[("fn", n)] = lambda *a: None
    r = Run(s, f.name("process"), [f.ptr, a.ptr, o.ptr])
    m = ite(ge0(H - W), W, H)
    size = ite(rge0(fraction), ite(gt0r(length - fraction * m), length, fraction * m), length)
    req = ite(rge0(size), ftoi(size + HALF), P((1 << 32) - 1))
    ok = b_and(b_and(ge0(req - 1), ge0(W - req)), ge0(H - req))
    return [r.returns(key + "/accepts", expect=b_poly(ok)), r.unchanged(a.data, key + "/frame")]


def rge0(p):
    return b_not(gt0r(-p))


def o_process_sizes(w, kind, pix):
    """an accepted image: fixed request"""
    key = key_of(kind, pix, "process")
    s = Setup(w)
    W, H, q = s.s("W", 1), s.s("H", 1), s.s("req", 1)
    s.ctx.add_ge(W - q)
    s.ctx.add_ge(H - q)
    f = Blk(s, kind, pix, s.s("SW", 0), s.s("SH", 0), s.s("oldbw", 0), s.s("oldbh", 0))
    for n, v in (("length", q), ("fraction", P(-1))):
        s.st.cells[("f", s.offset(f.cls, "requestedBlockWidth." + n))] = v
    a = Img(s, "a", pix, W, H, sub=True)
    o = Img(s, "o", "U8", W, H, sub=True)
    names = ("g.seq", "g.iw", "g.ih", "g.in", "g.out", "g.sw", "g.sh", "g.bw", "g.bh", "g.bands")
    ghost(s, *names)

    def put(ev, st, n, v, loc):
        if isinstance(v, Poly):
            ev.arr_store(st, n, TRUE, ZERO, v, loc)

    def step(ev, st, ctx, k, loc):
        old = arrays.resolve_read(ev.get_arr(st, "g.seq"), ZERO, ("s", 64), True, ctx)
        put(ev, st, "g.seq", old * 10 + k, loc)

    def hs(ev, args, st, ctx, loc, ins):
        step(ev, st, ctx, 1, loc)
        put(ev, st, "g.iw", ctx.simp(U(32, args[2])), loc)
        put(ev, st, "g.ih", ctx.simp(U(32, args[3])), loc)
        put(ev, st, "g.in", points_to(args[1], "a"), loc)
        for n, fl in (("g.sw", "stats.width"), ("g.sh", "stats.height"), ("g.bw", "blockWidth"), ("g.bh", "blockHeight"), ("g.bands", "stats.num_bands")):
            put(ev, st, n, f.field(st, fl), loc)
        return None

    def ha(ev, args, st, ctx, loc, ins):
        step(ev, st, ctx, 2, loc)
        put(ev, st, "g.out", points_to(args[1], "a") * points_to(args[2], "o"), loc)
        return None
    for n in f.method("computeStatistics"):
        s.ev.hooks[("fn", n)] = hs
    for n in f.method("applyThreshold"):
        s.ev.hooks[("fn", n)] = ha
    r = Run(s, f.name("process"), [f.ptr, a.ptr, o.ptr])
    bw, bh = T.div(W, T.div(W, q)), T.div(H, T.div(H, q))
    rw, rh = W - bw * T.div(W, bw), H - bh * T.div(H, bh)
    init = T.read(mkarr("init", "g.seq"), ZERO, ("s", 64), True)
    get = lambda n: arrays.resolve_read(s.ev.get_arr(r.st, n), ZERO, ("s", 64), True, r.ctx)
    out = [r.returns(key + "/returns")]
    for n, want, what in (("g.seq", init * 100 + 12, "statistics then thresholds, once each"), ("g.in", ONE, "statistics of the input"),
                          ("g.out", ONE, "thresholds from input to output"), ("g.bands", P(f.B), "bands of the statistics"),
                          ("g.bw", bw, "block width"), ("g.bh", bh, "block height"), ("g.sw", T.div(W, bw), "blocks per row"),
                          ("g.sh", T.div(H, bh), "rows of blocks"), ("g.iw", ite(eq0(rw), W, W - bw - rw), "width covered by blocks of the common size"),
                          ("g.ih", ite(eq0(rh), H, H - bh - rh), "height covered by blocks of the common size")):
        out.append(r.decide(get(n), want, what, key=key + "/" + n[2:], n=200))
    return out


def o_local(w, pix, down, kind):
    """local mean threshold; the mean filter itself is decided under C06"""
    key = "local/%s/%s/%s" % (pix, "down" if down else "up", kind)
    s = Setup(w)
    W, H = s.s("W", 1), s.s("H", 1)
    a = Img(s, "a", pix, W, H, sub=True)
    o = out_image(s, kind, "o", "U8", W, H)
    t, u = out_image(s, kind, "t", pix, W, H), out_image(s, kind, "u", pix, W, H)
    scale, length, fraction = fscalar(s, "scale"), s.s("length", 1), fscalar(s, "fraction")
    m = ite(ge0(H - W), W, H)
    size = ite(rge0(fraction), ite(gt0r(length - fraction * m), length, fraction * m), length)
    c = s.obj("len", "ConfigLength", {"length": length, "fraction": fraction})
    seen = []
    s.array("mean", pix, P(1 << 40))

    def h(ev, args, st, ctx, loc, ins):
        src, dst, rad = args[0], args[1], args[2]
        z = dict(src=points_to(src, "a"), radius=ctx.simp(U(32, rad)), loc=loc)
        d = dst.single()
        im = next((i for i in (o, t, u) if d and d[0] == i.name), None)
        if im is None:
            return None
        p = im.field(st, "data")
        sp = p.single() if isinstance(p, Ptr) else None
        if sp is None:
            return None
        z["geo"] = tuple(im.field(st, f) for f in ("offset", "stride", "width", "height"))
        st.arrs[sp[0]] = mkarr("init", "mean")
        seen.append(z)
        return None
    for n in w.mod.functions:
        if n.startswith("_ZN6boofcv12BlurImageOps4mean"):
            s.ev.hooks[("fn", n)] = h
    r = Run(s, "local_" + pix, [a.ptr, o.ptr, c, scale, TRUE if down else FALSE, t.ptr, u.ptr])
    out = [r.returns(key + "/returns"), r.unchanged(a.data, key + "/frame")]
    if len(seen) != 1:
        return out + [{"key": key + "/mean", "status": "open", "detail": "%d mean filters seen" % len(seen)}]
    z = seen[0]
    out.append(r.decide(z["src"], ONE, "mean of the input", key=key + "/source", loc=z["loc"]))
    out.append(r.decide(z["radius"], T.div(ftoi(size + HALF), P(2)), "radius of the mean", key=key + "/radius", loc=z["loc"]))
    off, stride, mw, mh = z["geo"]
    out.append(r.decide(mw, W, "width of the mean", key=key + "/meanwidth", loc=z["loc"]))
    out.append(r.decide(mh, H, "height of the mean", key=key + "/meanheight", loc=z["loc"]))
    out.append(r.decide(o.field(r.st, "width"), W, "output width", key=key + "/width"))
    out.append(r.decide(o.field(r.st, "height"), H, "output height", key=key + "/height"))
    X, Y = r.var("X", 0, W - 1), r.var("Y", 0, H - 1)
    m = T.read(mkarr("init", "mean"), off + Y * stride + X, a.ety, a.isint)
    px = a.px(X, Y)
    if down:
        bit = b_poly(b_not(gt0r(px - m * scale)))
    else:
        bit = b_poly(gt0r(px * scale - m))
    wl = r.writes_at(o.data)
    out.append(r.decide(o.final(r.st, X, Y, r.ctx), bit, "output pixel (X,Y)", key=key + "/pixel", loc=wl[0] if wl else None))
    return out


def obligations(ws, tier):
    w = ws["block"]
    obs = []
    for pix in ("U8", "F32"):
        for down in (True, False):
            for kind in ("same", "fresh", "larger"):
                obs.append(Ob("local/%s/%s/%s" % (pix, "down" if down else "up", kind), o_local, ws["thresh"], pix, down, kind))
    for kind, pix in KINDS:
        obs.append(Ob(key_of(kind, pix, "size"), o_select, w, kind, pix))
        for sp in SPLITS:
            obs.append(Ob(key_of(kind, pix, "tiles/" + sp), o_stats, w, kind, pix, sp))
        obs.append(Ob(key_of(kind, pix, "process"), o_process, w, kind, pix))
        obs.append(Ob(key_of(kind, pix, "process"), o_process_sizes, w, kind, pix))
        obs.append(Ob(key_of(kind, pix, "blocks"), o_apply, w, kind, pix))
        obs.append(Ob(key_of(kind, pix, "statistic"), o_bstat, w, kind, pix))
        for where in ("own", "near"):
            obs.append(Ob(key_of(kind, pix, "threshold/" + where), o_block, w, kind, pix, where))
    return obs
