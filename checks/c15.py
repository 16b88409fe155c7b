"""Growable array behaves as a sequence."""
from checks.data import *
from checks.texts import *
TECHNIQUE = T_FORM
RULE = rule("For every operation of the growable array and every symbolic content, size and capacity: the size, capacity and element i afterwards = "
            "the sequence definition (resize keeps the first min(old,new) elements and appends the default value, grow_array empties, assignment and "
            "set copy, fill and the constructors set the defined values); storage really holds array_length elements and array_length >= size; the "
            "block is replaced only when the request exceeds the capacity; an array over foreign memory refuses to grow.")
NOTE = NOTE_FORM
ASSUMPTIONS = ASSUME[:1] + ["arrays hold at most 2^28 elements"] + ASSUME[3:4]
LEVEL = "other"
DRIVERS = ["data"]


def post(r, a, key, size, el, cap=None, keep=None, lens=None):
    """sequence state after the operation: size, el(i), optional capacity, keep = guard under which the block stays"""
    s = r.s
    ctx = r.ctx if r.g is TRUE else r.ctx.with_bdd(r.g)
    out = []
    d = a.f(r.st, "data")
    n = a.f(r.st, "size")
    out.append(r.decide(n, size, "size afterwards", key=key + "/size", ctx=ctx))
    c = a.f(r.st, "array_length")
    real = capacity(s, r.st, d, ctx, None)
    if real is None:
        out.append({"key": key + "/storage", "status": "open", "detail": "storage not identified"})
    else:
        out.append(r.decide(b_poly(ge0(ctx.simp(real - c))) if isinstance(c, Poly) else None, ONE, "array_length within the storage", key=key + "/storage", ctx=ctx))
        out.append(r.decide(b_poly(ge0(ctx.simp(c - n))) if isinstance(c, Poly) and isinstance(n, Poly) else None, ONE, "size within array_length", key=key + "/fits", ctx=ctx))
    if cap is not None:
        out.append(r.decide(c, cap, "array_length afterwards", key=key + "/capacity", ctx=ctx))
    if keep is not None:
        p = points_to(d, a.data)
        kc = ctx.with_bdd(keep)
        out.append(r.decide(kc.simp(p) if p is not None else None, ONE, "block kept when the request fits", key=key + "/kept", ctx=kc))
    i = T.sym("i")
    r.syms.append(i.atom())
    ectx = ctx.child()
    ectx.add_ge(i)
    ectx.add_ge(size - 1 - i)
    if not ectx.dead and not ectx.entails(P(-1)):
        got = a.el(r.st, i, ectx)
        out.append(r.decide(got, el(i, ectx), "element i afterwards", key=key + "/element", ctx=ectx, loc=first_store(r, a)))
    cr = a.f(r.st, "can_resize")
    return out


def first_store(r, a):
    d = a.f(r.st, "data")
    if isinstance(d, Ptr):
        for g, root, o in d.alts:
            w = r.writes_at(root) if root else None
            if w:
                return w[0]
    return None


def flag(r, a, key, want):
    return r.decide(a.f(r.st, "can_resize"), P(want), "ownership flag afterwards", key=key + "/flag")


def o_ctor(w, fn, pix):
    s = Setup(w)
    a = Grow(s, "a", pix, raw=True)
    n = s.s("n", 0, CAP)
    key = "%s_%s" % (fn, pix)
    if fn == "ga_ctor":
        r = Run(s, key, [a.ptr, n])
        return [r.returns(key + "/returns"), flag(r, a, key, 1)] + post(r, a, key, n, lambda i, c: ZERO)
    if fn == "ga_ctor0":
        r = Run(s, key, [a.ptr])
        sz = a.f(r.st, "size")
        if not isinstance(sz, Poly):
            sz = ZERO
        return [r.returns(key + "/returns"), flag(r, a, key, 1)] + post(r, a, key, sz, lambda i, c: ZERO)
    if fn == "ga_wrap":
        cap = s.s("l", 0, CAP)
        s.ctx.add_ge(cap - n)
        p = s.array("ext", pix, cap)
        r = Run(s, key, [a.ptr, p, cap, n])
        a.data = "ext"
        return [r.returns(key + "/returns"), flag(r, a, key, 0)] + post(r, a, key, n, lambda i, c: T.read(mkarr("init", "ext"), i, a.ety, a.isint), cap=cap, keep=TRUE)
    if fn == "ga_copy":
        b = Grow(s, "b", pix, resizable=T.sym("b.flag"))
        s.s("b.flag", 0, 1)
        r = Run(s, key, [a.ptr, b.ptr])
        return [r.returns(key + "/returns"), flag(r, a, key, 1), r.unchanged(b.data, key + "/frame"),
                r.decide(a.f(r.st, "default_value"), b.dv, "default value copied", key=key + "/default")] + post(r, a, key, b.size, lambda i, c: b.init(i)) + apart(r, a, b, key)
    p = s.array("lst", pix, n)
    r = Run(s, key, [a.ptr, p, n])
    return [r.returns(key + "/returns"), flag(r, a, key, 1), r.unchanged("lst", key + "/frame")] + post(r, a, key, n, lambda i, c: T.read(mkarr("init", "lst"), i, a.ety, a.isint))


def apart(r, a, b, key):
    """the two arrays do not share storage"""
    p = points_to(a.f(r.st, "data"), b.data)
    if p is None:
        return [{"key": key + "/apart", "status": "open", "detail": "storage not identified"}]
    ctx = r.ctx if r.g is TRUE else r.ctx.with_bdd(r.g)
    return [r.decide(ctx.simp(p), ZERO, "storage shared with the source", key=key + "/apart", ctx=ctx)]


def o_op(w, fn, pix):
    s = Setup(w)
    a = Grow(s, "a", pix)
    n = s.s("n", 0, CAP)
    key = "%s_%s" % (fn, pix)
    grew = ge0(n - a.cap - 1)
    keep = b_not(grew)
    capx = ite(grew, n, a.cap)
    if fn == "ga_resize":
        r = Run(s, key, [a.ptr, n])
        return [r.returns(key + "/returns"), flag(r, a, key, 1)] + post(r, a, key, n, lambda i, c: ite(ge0(a.size - 1 - i), a.init(i), a.dv), keep=keep)
    if fn == "ga_grow":
        r = Run(s, key, [a.ptr, n])
        return [r.returns(key + "/returns"), flag(r, a, key, 1)] + post(r, a, key, ZERO, lambda i, c: ZERO, keep=keep) + \
            [r.decide(b_poly(ge0(a.f(r.st, "array_length") - n)), ONE, "room for n elements", key=key + "/room")]
    if fn == "ga_fill":
        v = val(s, "v", pix)
        r = Run(s, key, [a.ptr, v])
        return [r.returns(key + "/returns")] + post(r, a, key, a.size, lambda i, c: v, cap=a.cap, keep=TRUE)
    if fn == "ga_set":
        p = s.array("src", pix, n)
        r = Run(s, key, [a.ptr, p, n])
        return [r.returns(key + "/returns"), r.unchanged("src", key + "/frame"), flag(r, a, key, 1)] + \
            post(r, a, key, n, lambda i, c: T.read(mkarr("init", "src"), i, a.ety, a.isint), keep=keep)
    if fn == "ga_setTo":
        p = s.array("src", pix, n)
        r = Run(s, key, [a.ptr, p, n])
        return [r.returns(key + "/returns"), r.unchanged("src", key + "/frame"), flag(r, a, key, 1)] + \
            post(r, a, key, n, lambda i, c: T.read(mkarr("init", "src"), i, a.ety, a.isint), keep=keep)
    if fn == "ga_self":
        r = Run(s, key, [a.ptr])
        return [r.returns(key + "/returns"), flag(r, a, key, 1)] + post(r, a, key, a.size, lambda i, c: a.init(i), keep=TRUE)
    b = Grow(s, "b", pix, resizable=s.s("b.flag", 0, 1))
    r = Run(s, key, [a.ptr, b.ptr])
    return [r.returns(key + "/returns"), r.unchanged(b.data, key + "/frame"), flag(r, a, key, 1),
            r.decide(a.f(r.st, "default_value"), b.dv, "default value copied", key=key + "/default")] + \
        post(r, a, key, b.size, lambda i, c: b.init(i), keep=ge0(a.cap - b.size)) + apart(r, a, b, key)


def o_foreign(w, fn, pix):
    """foreign memory that is too small: rejected, nothing changed"""
    s = Setup(w)
    a = Grow(s, "a", pix, resizable=0)
    n = s.s("n", 0, CAP)
    s.ctx.add_ge(n - a.cap - 1)
    key = "%s_%s/foreign" % (fn, pix)
    if fn in ("ga_resize", "ga_grow"):
        args = [a.ptr, n]
    elif fn == "ga_assign":
        b = Grow(s, "b", pix)
        s.ctx.add_ge(b.size - a.cap - 1)
        args = [a.ptr, b.ptr]
    else:
        args = [a.ptr, s.array("src", pix, n), n]
    r = Run(s, "%s_%s" % (fn, pix), args)
    out = [r.returns(key + "/rejected", expect=ZERO)]
    freed = [e for e in r.ev.trace if e[0] == "free" and isinstance(e[1], Ptr) and any(x[1] == a.data for x in e[1].alts) and not e[3].dead]
    out.append({"key": key + "/kept", "status": "refuted" if freed else "proved", "loc": freed[0][4] if freed else None,
                "detail": "foreign memory is freed" if freed else None})
    return out


def o_acc(w, fn, pix):
    """accesses of owned storage stay inside it"""
    s = Setup(w)
    a = Grow(s, "a", pix)
    n = s.s("n", 0, CAP)
    if fn in ("ga_resize", "ga_grow"):
        args = [a.ptr, n]
    elif fn == "ga_fill":
        args = [a.ptr, val(s, "v", pix)]
    elif fn in ("ga_set", "ga_setTo"):
        args = [a.ptr, s.array("src", pix, n), n]
    else:
        b = Grow(s, "b", pix)
        args = [a.ptr, b.ptr]
    r = Run(s, "%s_%s" % (fn, pix), args)
    regions = {}
    for n_, rt in r.ev.roots.items():
        if rt.kind == "array" and rt.origin in ("param", "heap") and rt.length is not None:
            regions[n_] = Region(length=P(rt.length))
    return r.accesses(regions, "%s_%s/access" % (fn, pix))


def obligations(ws, tier):
    w = ws["data"]
    obs = []
    for pix in ("U32", "U8", "S32", "F32", "F64"):
        for fn in ("ga_ctor", "ga_ctor0", "ga_wrap", "ga_copy", "ga_list"):
            obs.append(Ob("%s_%s" % (fn, pix), o_ctor, w, fn, pix))
        for fn in ("ga_resize", "ga_grow", "ga_fill", "ga_set", "ga_setTo", "ga_self", "ga_assign"):
            obs.append(Ob("%s_%s" % (fn, pix), o_op, w, fn, pix))
            if fn != "ga_self":
                obs.append(Ob("%s_%s/access" % (fn, pix), o_acc, w, fn, pix))
        for fn in ("ga_resize", "ga_grow", "ga_set", "ga_setTo", "ga_assign"):
            obs.append(Ob("%s_%s/foreign" % (fn, pix), o_foreign, w, fn, pix))
    return obs
