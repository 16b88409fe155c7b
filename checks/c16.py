"""Packed set returns the elements of each set in insertion order."""
from checks.data import *
from checks.texts import *
TECHNIQUE = T_FORM
RULE = rule("For every operation of the packed set and every symbolic state that satisfies the representation invariant (element e lives in block "
            "e div B at e mod B, set k starts at block*B+offset, the tail set ends at the element count): the sets, their sizes and every stored element "
            "afterwards = the sequence-of-sequences definition, the invariant is kept, the blocks suffice for every element and hold B elements each, and "
            "accesses stay inside the blocks.")
NOTE = NOTE_FORM
ASSUMPTIONS = ASSUME[:1] + ["blocks hold 1 to 2^20 elements, fewer than 2^28 elements and 2^20 sets in total",
                            "std::vector is modelled as a sequence in a large enough array"]
LEVEL = "other"
DRIVERS = ["packed"]


class Packed:
    """a PackedSet parameter; logical element e is element e of one array 'ps.el'"""

    def __init__(self, s, pix, raw=False):
        self.s, self.pix = s, pix
        self.cls = "PackedSet<%s>" % CPPT[pix]
        self.ety, self.esz = (PIX[pix][0], PIX[pix][1]), PIX[pix][3]
        self.isint = pix[0] != "F"
        s.ev.hooks["ptrmem"] = True
        self.B = s.s("B", 1, 1 << 20)
        if raw:
            self.ptr = s.obj("ps", self.cls, {})
            return
        self.nb = s.s("nb", 1, 1 << 20)
        s.ctx.add_ge(P(1 << 28) - self.nb * self.B)
        s.array("ps.el", pix, self.nb * self.B, heap="_Znam")
        s.ev.root("ps.blocks", "array", esz=8, ety=("p", 64), length=self.nb, origin="param", heap="_Znam")
        j = T.sym("pj").atom()
        s.st.arrs["ps.blocks"] = mkarr("st", "ps.blocks", mkarr("init", "ps.blocks"), mknode("loop", j, self.nb, (
            mknode("st", TRUE, P(j), T.sym("addr:ps.el") + P(j) * self.B * self.esz, None),)))
        s.ev.root("ps.info", "array", esz=4, ety=("u", 32), length=P(1 << 30), origin="param")

    def make(self, n, total):
        self.n, self.total = P(n), P(total)
        self.ptr = self.s.obj("ps", self.cls, {"blocks": mkptr("ps.blocks"), "_number_of_blocks": self.nb, "_size_of_block": self.B,
                                               "_total_element": self.total, "set_info.d": mkptr("ps.info"), "set_info.n": self.n})
        return self

    def record(self, k, *vals):
        """fixes the record of set k"""
        a = self.s.st.arrs.get("ps.info") or mkarr("init", "ps.info")
        for f, v in enumerate(vals):
            a = mkarr("st", "ps.info", a, mknode("st", TRUE, k * 3 + f, P(v), None))
        self.s.st.arrs["ps.info"] = a

    def init(self, e):
        return T.read(mkarr("init", "ps.el"), P(e), self.ety, self.isint)

    def f(self, st, n):
        return self.s.get(st, "ps", self.cls, n)

    def el(self, st, e, ctx):
        """element e as the final block table finds it"""
        b = self.f(st, "blocks")
        S_ = self.f(st, "_size_of_block")
        if not isinstance(b, Ptr) or not isinstance(S_, Poly):
            return None
        k = ctx.simp(T.div(e, S_))      # folds to the block number
        p = self.s.ev.load(st, b_shift(b, k * 8), ir.Ty("ptr"), ctx, None)
        return read_ptr(self.s, st, p, ctx.simp(e - k * S_), self.ety, self.isint, ctx)

    def rec(self, st, k, f, ctx):
        p = self.f(st, "set_info.d")
        return read_ptr(self.s, st, p, P(k) * 3 + f, ("u", 32), True, ctx)


def b_shift(p, d):
    return Ptr(tuple((g, r, o + d) for g, r, o in p.alts))


def keep_geometry(r, ps, key, nb=None):
    out = [r.decide(r_f(r, ps, "_size_of_block"), ps.B, "block size afterwards", key=key + "/block")]
    if nb is not None:
        got = r_f(r, ps, "_number_of_blocks")
        out.append(r.decide(b_poly(ge0(r.ctx.simp(got - nb))) if isinstance(got, Poly) else None, ONE, "enough blocks afterwards", key=key + "/blocks"))
    return out


def r_f(r, ps, n):
    return ps.f(r.st, n)


def elements(r, ps, key, total, want):
    """element e < total afterwards, e = k*B+x"""
    k, x = T.sym("eb"), T.sym("ex")
    r.syms += [k.atom(), x.atom()]
    c = r.ctx.child()
    c.add_ge(k)
    c.add_ge(x)
    c.add_ge(ps.B - 1 - x)
    e = k * ps.B + x
    if ps.total is ps.nb * ps.B and total is not ps.total:
        c.add_ge(ps.nb - k)         # consequence of e <= nb*B
    else:
        c.add_ge(ps.nb - 1 - k)     # consequence of e < nb*B
    c.add_ge(total - 1 - e)
    if total is ONE:
        c.add_ge(-k)
        c.add_ge(-x)
    if c.dead:
        return []
    return [r.decide(ps.el(r.st, e, c), want(e), "stored element e afterwards", key=key + "/element", ctx=c)]


def records(r, ps, key, n, want):
    """record of set k < n afterwards"""
    k = T.sym("k")
    r.syms.append(k.atom())
    c = r.ctx.child()
    c.add_ge(k)
    c.add_ge(n - 1 - k)
    if c.dead:
        return []
    b, o, z = (ps.rec(r.st, k, f, c) for f in range(3))
    wb, wz = want(k)
    return [r.decide(None if b is None else b * ps.B + o, wb, "start of set k", key=key + "/start", ctx=c),
            r.decide(z, wz, "size of set k", key=key + "/size", ctx=c)]


def rd(k, f):
    return T.read(mkarr("init", "ps.info"), P(k) * 3 + f, ("u", 32), True)


def state(s, pix, sets=True, full=None):
    """symbolic state; sets: at least one set, otherwise none.  full: the storage is / is not full"""
    ps = Packed(s, pix)
    if not sets:
        ps.make(0, 0)
        return ps, None
    n = s.s("n", 1, 1 << 20)
    if full:
        b, o = None, None
        z = s.s("z", 0)
        start = ps.nb * ps.B - z
        s.ctx.add_ge(start)
        b = T.div(start, ps.B)
        o = start - b * ps.B
        total = ps.nb * ps.B
    else:
        b = s.s("b", 0)
        o = s.s("o", 0)
        s.ctx.add_ge(ps.B - 1 - o)
        z = s.s("z", 0)
        total = b * ps.B + o + z
        s.ctx.add_ge(ps.nb * ps.B - total - (1 if full is False else 0))
    ps.make(n, total)
    ps.record(n - 1, b, o, z)
    return ps, (b * ps.B + o, z)


def o_ctor(w, pix):
    s = Setup(w)
    ps = Packed(s, pix, raw=True)
    key = "ps_ctor_" + pix
    r = Run(s, key, [ps.ptr, ps.B])
    out = [r.returns(key + "/returns")] + keep_geometry(r, ps, key)
    out.append(r.decide(ps.f(r.st, "_total_element"), ZERO, "elements afterwards", key=key + "/total"))
    out.append(r.decide(ps.f(r.st, "set_info.n"), ZERO, "sets afterwards", key=key + "/sets"))
    nb = ps.f(r.st, "_number_of_blocks")
    out.append(room(r, ps, key, nb))
    return out


def room(r, ps, key, nb):
    """every block of the table holds B elements"""
    b = ps.f(r.st, "blocks")
    k = T.sym("kb")
    r.syms.append(k.atom())
    c = r.ctx.child()
    c.add_ge(k)
    c.add_ge(nb - 1 - k)
    if not isinstance(b, Ptr) or not isinstance(nb, Poly):
        return {"key": key + "/room", "status": "open", "detail": "block table not identified"}
    p = r.ev.load(r.st, b_shift(b, k * 8), ir.Ty("ptr"), c, None)
    cap = capacity(ps.s, r.st, p, c, None, ps.esz)
    return r.decide(None if cap is None else b_poly(ge0(c.simp(cap - ps.B))), ONE, "block k holds B elements", key=key + "/room", ctx=c)


def o_push(w, pix, sets, full):
    s = Setup(w)
    ps, tail = state(s, pix, sets, full)
    v = val(s, "v", pix)
    s.ev.root("pv", "array", esz=ps.esz, ety=ps.ety, length=ONE, origin="param")
    s.st.arrs["pv"] = mkarr("st", "pv", mkarr("init", "pv"), mknode("st", TRUE, ZERO, v, None))
    key = "ps_push_%s/%s" % (pix, "first" if not sets else "full" if full else "fits")
    r = Run(s, "ps_push_" + pix, [ps.ptr, mkptr("pv")])
    n = ps.n if sets else ONE
    out = [r.returns(key + "/returns")] + keep_geometry(r, ps, key, ps.nb + 1 if full else ps.nb)
    out.append(r.decide(ps.f(r.st, "_total_element"), ps.total + 1, "elements afterwards", key=key + "/total"))
    out.append(r.decide(ps.f(r.st, "set_info.n"), n, "sets afterwards", key=key + "/sets"))
    out += elements(r, ps, key, ps.total + 1, lambda e: ite(eq0(e - ps.total), v, ps.init(e)))
    if sets:
        last = lambda k: eq0(k - (n - 1))
        out += records(r, ps, key, n, lambda k: (ite(last(k), tail[0], rd(k, 0) * ps.B + rd(k, 1)), ite(last(k), tail[1] + 1, rd(k, 2))))
    else:
        out += records(r, ps, key, n, lambda k: (ZERO, ONE))
    if full:
        out.append(room(r, ps, key, ps.f(r.st, "_number_of_blocks")))
    return out + bounds(r, ps, key)


def bounds(r, ps, key):
    regions = {}
    for n_, rt in r.ev.roots.items():
        if rt.kind == "array" and n_ != "ps.info" and rt.origin in ("param", "heap") and rt.length is not None:
            regions[n_] = Region(length=P(rt.length))
    return r.accesses(regions, key + "/access")


def o_start(w, pix, sets):
    s = Setup(w)
    ps, tail = state(s, pix, sets)
    key = "ps_start_%s/%s" % (pix, "more" if sets else "first")
    r = Run(s, "ps_start_" + pix, [ps.ptr])
    out = [r.returns(key + "/returns")] + keep_geometry(r, ps, key)
    out.append(r.decide(ps.f(r.st, "_total_element"), ps.total, "elements afterwards", key=key + "/total"))
    out.append(r.decide(ps.f(r.st, "set_info.n"), ps.n + 1, "sets afterwards", key=key + "/sets"))
    out += elements(r, ps, key, ps.total, ps.init)
    new = lambda k: eq0(k - ps.n)
    old = (lambda k: (ite(eq0(k - ps.n + 1), tail[0], rd(k, 0) * ps.B + rd(k, 1)), ite(eq0(k - ps.n + 1), tail[1], rd(k, 2)))) if sets else \
        (lambda k: (ZERO, ZERO))
    return out + records(r, ps, key, ps.n + 1, lambda k: (ite(new(k), ps.total, old(k)[0]), ite(new(k), ZERO, old(k)[1])))


def o_remove(w, pix, sets):
    s = Setup(w)
    ps, tail = state(s, pix, sets)
    key = "ps_remove_%s/%s" % (pix, "some" if sets else "none")
    r = Run(s, "ps_remove_" + pix, [ps.ptr])
    out = [r.returns(key + "/returns")] + keep_geometry(r, ps, key)
    n, t = (ps.n - 1, tail[0]) if sets else (ZERO, ZERO)
    out.append(r.decide(ps.f(r.st, "_total_element"), t, "elements afterwards", key=key + "/total"))
    out.append(r.decide(ps.f(r.st, "set_info.n"), n, "sets afterwards", key=key + "/sets"))
    out += elements(r, ps, key, t, ps.init)
    return out + records(r, ps, key, n, lambda k: (rd(k, 0) * ps.B + rd(k, 1), rd(k, 2)))


def o_clear(w, pix):
    s = Setup(w)
    ps, tail = state(s, pix)
    key = "ps_clear_" + pix
    r = Run(s, key, [ps.ptr])
    return [r.returns(key + "/returns")] + keep_geometry(r, ps, key) + [
        r.decide(ps.f(r.st, "_total_element"), ZERO, "elements afterwards", key=key + "/total"),
        r.decide(ps.f(r.st, "set_info.n"), ZERO, "sets afterwards", key=key + "/sets"),
        room(r, ps, key, ps.f(r.st, "_number_of_blocks"))]


def o_size(w, pix, fn, sets):
    s = Setup(w)
    ps, tail = state(s, pix, sets)
    key = "%s_%s/%s" % (fn, pix, "some" if sets else "none")
    r = Run(s, "%s_%s" % (fn, pix), [ps.ptr])
    want = (tail[1] if sets else ZERO) if fn == "ps_tail" else ps.n
    return [r.returns(key + "/returns"), r.decide(r.ret, want, "size", key=key)]


def any_set(s, pix):
    """a state with a set q somewhere"""
    ps = Packed(s, pix)
    n = s.s("n", 1, 1 << 20)
    q = s.s("q", 0)
    s.ctx.add_ge(n - 1 - q)
    b, o, z = s.s("b", 0), s.s("o", 0), s.s("z", 0)
    s.ctx.add_ge(ps.B - 1 - o)
    more = s.s("more", 0)
    total = b * ps.B + o + z + more
    s.ctx.add_ge(ps.nb * ps.B - total)
    ps.make(n, total)
    ps.record(q, b, o, z)
    return ps, q, b * ps.B + o, z


def o_at(w, pix, fn):
    s = Setup(w)
    ps, q, start, z = any_set(s, pix)
    i = s.s("at", 0, (1 << 32) - 1)
    key = "%s_%s" % (fn, pix)
    args = [ps.ptr, q, i]
    v = None
    if fn == "ps_put":
        v = val(s, "v", pix)
        args.append(v)
    r = Run(s, key, args)
    ok = ge0(z - 1 - i)
    out = [r.returns(key + "/range", expect=b_poly(ok))]
    c = r.ctx.with_bdd(ok)
    if v is None:
        out.append(r.decide(r.ret, ps.init(start + i), "value returned", key=key + "/value", ctx=c))
    else:
        r.ctx = c
        out += elements(r, ps, key, ps.total, lambda e: ite(eq0(e - start - i), v, ps.init(e)))
    return out + bounds(r, ps, key)


def o_range(w, pix, fn):
    """a set that does not exist is rejected"""
    s = Setup(w)
    ps, tail = state(s, pix)
    q = s.s("q", 0, (1 << 32) - 1)
    s.ctx.add_ge(q - ps.n)
    key = "%s_%s/noset" % (fn, pix)
    args = [ps.ptr, q]
    if fn == "ps_at":
        args.append(s.s("at", 0, (1 << 32) - 1))
    else:
        args.append(seq(s, pix)[0])
    r = Run(s, "%s_%s" % (fn, pix), args)
    return [r.returns(key + "/range", expect=ZERO)]


def seq(s, pix, n=0):
    cls = "sa_vector<%s>" % CPPT[pix]
    s.ev.root("vec", "array", esz=PIX[pix][3], ety=(PIX[pix][0], PIX[pix][1]), length=P(1 << 30), origin="param")
    return s.obj("v", cls, {"d": mkptr("vec"), "n": n}), cls


def o_load(w, pix):
    s = Setup(w)
    ps, q, start, z = any_set(s, pix)
    v, cls = seq(s, pix)
    key = "ps_load_" + pix
    r = Run(s, key, [ps.ptr, q, v])
    out = [r.returns(key + "/returns"), r.unchanged("ps.el", key + "/frame"),
           r.decide(s.get(r.st, "v", cls, "n"), z, "elements returned", key=key + "/count")]
    i = T.sym("i")
    r.syms.append(i.atom())
    c = r.ctx.child()
    c.add_ge(i)
    c.add_ge(z - 1 - i)
    got = read_ptr(s, r.st, s.get(r.st, "v", cls, "d"), i, ps.ety, ps.isint, c)
    out.append(r.decide(got, ps.init(start + i), "element i returned", key=key + "/element", ctx=c))
    return out + bounds(r, ps, key)


def o_write(w, pix):
    s = Setup(w)
    ps, q, start, z = any_set(s, pix)
    m = s.s("m", 0, 1 << 28)
    v, cls = seq(s, pix, m)
    key = "ps_write_" + pix
    r = Run(s, key, [ps.ptr, q, v])
    ok = eq0(m - z)
    out = [r.returns(key + "/range", expect=b_poly(ok)), r.unchanged("vec", key + "/frame")]
    r.ctx = r.ctx.with_bdd(ok)
    init = lambda e: T.read(mkarr("init", "vec"), e, ps.ety, ps.isint)
    out += elements(r, ps, key, ps.total, lambda e: ite(b_and(ge0(e - start), ge0(start + z - 1 - e)), init(e - start), ps.init(e)))
    return out + bounds(r, ps, key)


def obligations(ws, tier):
    w = ws["packed"]
    obs = []
    for pix in ("U32", "U8", "F32"):
        obs.append(Ob("ps_ctor_" + pix, o_ctor, w, pix))
        for sets, full, n in ((True, False, "fits"), (True, True, "full"), (False, None, "first")):
            obs.append(Ob("ps_push_%s/%s" % (pix, n), o_push, w, pix, sets, full))
        for sets in (True, False):
            obs.append(Ob("ps_start_%s/%d" % (pix, sets), o_start, w, pix, sets))
            obs.append(Ob("ps_remove_%s/%d" % (pix, sets), o_remove, w, pix, sets))
            obs.append(Ob("ps_tail_%s/%d" % (pix, sets), o_size, w, pix, "ps_tail", sets))
            obs.append(Ob("ps_count_%s/%d" % (pix, sets), o_size, w, pix, "ps_count", sets))
        obs.append(Ob("ps_clear_" + pix, o_clear, w, pix))
        for fn in ("ps_at", "ps_put"):
            obs.append(Ob("%s_%s" % (fn, pix), o_at, w, pix, fn))
        for fn in ("ps_at", "ps_load", "ps_write"):
            obs.append(Ob("%s_%s/noset" % (fn, pix), o_range, w, pix, fn))
        obs.append(Ob("ps_load_" + pix, o_load, w, pix))
        obs.append(Ob("ps_write_" + pix, o_write, w, pix))
    return obs
