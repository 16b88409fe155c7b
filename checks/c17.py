"""Contour tracing keeps its bookkeeping consistent with the image."""
import re
from checks.data import *
from checks.texts import *
TECHNIQUE = T_FORM
RULE = rule("For the tracer and the labelling pass, function by function: neighbour tables, first search direction, clockwise search (which neighbour is "
            "found, which pixels are marked), step to the next pixel, labelling and recording of a point, start of a trace, opening and discarding of "
            "contour records, and the conditions under which the labelling pass runs each of its steps = their definition; accesses stay inside.")
NOTE = NOTE_FORM + (" That the traced points form the outline of the blob is the composition of these steps over an unbounded walk, which is not "
                    "decided here.")
ASSUMPTIONS = ASSUME[:1] + ["images hold fewer than 2^30 pixels", "std::vector is modelled as a sequence in a large enough array; of the sequence of "
                            "contours one element is represented and an access to a second one leaves the obligation open"]
LEVEL = "other"
DRIVERS = ["tracing"]

D8 = [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1)]
D4 = [(1, 0), (0, 1), (-1, 0), (0, -1)]
FOUR, EIGHT = 0, 1
TR = "ContourTracer"
LC = "LinearContourLabelChang2004"
M = "_ZN6boofcv13ContourTracer"
L = "_ZN6boofcv27LinearContourLabelChang2004"
PT = "PackedSet<boofcv::Point2D<int> >"


def table(s, name, vals):
    """a heap array of 32-bit integers holding vals"""
    s.ev.root(name, "array", esz=4, ety=("s", 32), length=P(len(vals)), origin="param", heap="_Znam")
    a = mkarr("init", name)
    for k, v in enumerate(vals):
        a = mkarr("st", name, a, mknode("st", TRUE, P(k), P(v), None))
    s.st.arrs[name] = a
    return mkptr(name)


def dirs(rule_):
    return D8 if rule_ == EIGHT else D4


class Tracer:
    """a ContourTracer parameter over a binary image (with frame) and a label image"""

    def __init__(self, s, rule_, size=0):
        self.s, self.rule = s, rule_
        s.ev.hooks["ptrmem"] = True
        w, h = s.s("w", 1, 1 << 14), s.s("h", 1, 1 << 14)
        self.w, self.h = w, h
        self.b = Img(s, "b", "U8", w + 2, h + 2)
        self.l = Img(s, "l", "S32", w, h)
        for im in (self.b, self.l):
            s.ctx.add_ge(P(1 << 15) - im.stride)
            s.ctx.add_ge(P(1 << 20) - im.offset)
        N = len(dirs(rule_))
        self.N = N
        ob = [dx + dy * self.b.stride for dx, dy in dirs(rule_)]
        ol = [dx + dy * self.l.stride for dx, dy in dirs(rule_)]
        turn = N // 2 + N // 4
        self.offs = ob, ol
        # packed list: n sets, the last of z points
        self.n = s.s("n", 1, 1 << 20)
        self.z = s.s("z", 0, 1 << 24)
        self.maxc = s.s("maxc", 0, (1 << 32) - 1)
        s.ev.root("ps.info", "array", esz=4, ety=("u", 32), length=P(1 << 30), origin="param")
        s.st.arrs["ps.info"] = mkarr("st", "ps.info", mkarr("init", "ps.info"), mknode("st", TRUE, (self.n - 1) * 3 + 2, self.z, None))
        self.ps = s.obj("ps", PT, {"set_info.d": mkptr("ps.info"), "set_info.n": self.n, "_total_element": s.s("total", 0, 1 << 28)})
        self.x, self.y = s.s("x", 1), s.s("y", 1)
        s.ctx.add_ge(w - self.x)
        s.ctx.add_ge(h - self.y)
        self.ib = self.b.offset + self.y * self.b.stride + self.x
        self.il = self.l.offset + (self.y - 1) * self.l.stride + self.x - 1
        self.label = s.s("label", 1, (1 << 31) - 1)
        self.ptr = s.obj("t", TR, {
            "rule": rule_, "ruleN": N, "storagePoints": self.ps, "binary": self.b.ptr, "labeled": self.l.ptr,
            "x": self.x, "y": self.y, "label": self.label, "indexBinary": self.ib, "indexLabel": self.il, "maxContourSize": self.maxc,
            "offsetsBinary": table(s, "offB", ob), "offsetsLabeled": table(s, "offL", ol),
            "nextDirection": table(s, "nextD", [(i + turn) % N for i in range(N)])})

    def set(self, f, v):
        self.s.st.cells[("t", self.s.offset(TR, f))] = P(v)

    def f(self, st, n):
        return self.s.get(st, "t", TR, n)

    def regions(self):
        return {"b.data": self.b.region(), "l.data": self.l.region(), "offB": Region(length=P(self.N)), "offL": Region(length=P(self.N)),
                "nextD": Region(length=P(self.N))}


RN = {FOUR: "four", EIGHT: "eight"}


def o_ctor(w, rule_):
    s = Setup(w)
    s.ev.hooks["ptrmem"] = True
    key = "tracer/" + RN[rule_]
    p = s.obj("t", TR, {})
    r = Run(s, "ct_ctor", [p, P(rule_)])
    N = len(dirs(rule_))
    f = lambda n: s.get(r.st, "t", TR, n)
    out = [r.returns(key + "/returns"), r.decide(f("rule"), P(rule_), "rule", key=key + "/rule"), r.decide(f("ruleN"), P(N), "neighbours", key=key + "/ruleN"),
           r.decide(U(32, f("maxContourSize")), P((1 << 32) - 1), "largest contour", key=key + "/max")]
    for i in range(N):
        d = dirs(rule_)[i]
        # back to where it came from, then past it clockwise: +2 of 8, +1 of 4
        want = (i + N // 2 + N // 4) % N
        out.append(r.decide(read_ptr(s, r.st, f("nextDirection"), P(i), ("u", 32), True, r.ctx), P(want), "first direction searched after moving in "
                            "direction %d" % i, key="%s/next%d" % (key, i)))
    for n in ("nextDirection", "offsetsBinary", "offsetsLabeled"):
        cap = capacity(s, r.st, f(n), r.ctx, None, 4)
        out.append(r.decide(None if cap is None else b_poly(ge0(cap - N)), ONE, "%s has room for every direction" % n, key="%s/room/%s" % (key, n)))
    return out


def o_badrule(w):
    s = Setup(w)
    s.ev.hooks["ptrmem"] = True
    p = s.obj("t", TR, {})
    v = s.s("rule", 2, (1 << 31) - 1)
    r = Run(s, "ct_ctor", [p, v])
    return [r.returns("tracer/unknown-rule", expect=ZERO)]


def o_inputs(w, rule_):
    s = Setup(w)
    t = Tracer(s, rule_)
    for n in ("offB", "offL"):
        s.st.arrs[n] = mkarr("init", n)
    for n in ("storagePoints", "binary", "labeled"):
        s.st.cells[("t", s.offset(TR, n))] = NULL
    key = "set_inputs/" + RN[rule_]
    r = Run(s, "ct_set_inputs", [t.ptr, t.b.ptr, t.l.ptr, t.ps])
    out = [r.returns(key + "/returns")]
    for n, root in (("binary", "b"), ("labeled", "l"), ("storagePoints", "ps")):
        out.append(r.decide(points_to(t.f(r.st, n), root), ONE, "image used", key="%s/%s" % (key, n)))
    for n, want in (("offsetsBinary", t.offs[0]), ("offsetsLabeled", t.offs[1])):
        for i, d in enumerate(dirs(rule_)):
            out.append(r.decide(read_ptr(s, r.st, t.f(r.st, n), P(i), ("s", 32), True, r.ctx), want[i],
                                "offset of the neighbour in direction %d (%d,%d)" % (i, d[0], d[1]), key="%s/%s%d" % (key, n, i)))
    return out + r.accesses(t.regions(), key + "/access")


def o_search(w, rule_, d, first):
    """search from direction d; the neighbour at position `first` clockwise is the first black one (N: none)"""
    s = Setup(w)
    t = Tracer(s, rule_)
    t.set("dir", d)
    key = "search/%s/%d/%s" % (RN[rule_], d, first if first < t.N else "none")
    N = t.N
    nb = [dirs(rule_)[(d + k) % N] for k in range(N)]
    black = [eq0(t.b.px(t.x + a, t.y + b_) - 1) for a, b_ in nb]
    for k in range(min(first + 1, N)):
        s.ctx = s.ctx.with_bdd(black[k] if k == first else b_not(black[k]))
    r = Run(s, "ct_search", [t.ptr])
    found, fdir = P(1 if first < N else 0), P((d + first) % N)
    out = [r.returns(key + "/returns"), r.decide(r.ret, found, "a black neighbour exists", key=key + "/found"),
           r.decide(t.f(r.st, "dir"), fdir, "direction of the first black neighbour, clockwise", key=key + "/dir")]
    for n, v in (("indexBinary", t.ib), ("indexLabel", t.il), ("x", t.x), ("y", t.y), ("label", t.label)):
        out.append(r.decide(t.f(r.st, n), v, n + " afterwards", key="%s/%s" % (key, n)))
    # neighbours before the first black one are marked, nothing else changes
    for k in range(N):
        a, b_ = nb[k]
        out.append(r.decide(t.b.final(r.st, t.x + a, t.y + b_, r.ctx), P(255) if k < first else t.b.px(t.x + a, t.y + b_),
                            "neighbour (%d,%d) afterwards" % (a, b_), key="%s/mark%d" % (key, k)))
    X, Y = r.var("X", 0, t.w + 1), r.var("Y", 0, t.h + 1)
    far = FALSE
    for nm, q in (("right", X - t.x - 2), ("left", t.x - 2 - X), ("below", Y - t.y - 2), ("above", t.y - 2 - Y)):
        c = r.ctx.child()
        c.add_ge(q)
        if not c.dead:
            out.append(r.decide(t.b.final(r.st, X, Y, c), t.b.px(X, Y), "pixel beyond the neighbourhood afterwards", ctx=c, key="%s/frame-%s" % (key, nm)))
    for a, b_ in [(0, 0)] + [q for q in D8 if q not in nb]:
        out.append(r.decide(t.b.final(r.st, t.x + a, t.y + b_, r.ctx), t.b.px(t.x + a, t.y + b_), "pixel (%d,%d) afterwards" % (a, b_),
                            key="%s/keep%d%d" % (key, a, b_)))
    out.append(r.unchanged("l.data", key + "/labels"))
    return out + r.accesses(t.regions(), key + "/access")


def o_move(w, rule_, d):
    s = Setup(w)
    t = Tracer(s, rule_)
    t.set("dir", d)
    dx, dy = dirs(rule_)[d]
    # the neighbour is part of the image without its frame
    s.ctx.add_ge(t.x + dx - 1)
    s.ctx.add_ge(t.w - t.x - dx)
    s.ctx.add_ge(t.y + dy - 1)
    s.ctx.add_ge(t.h - t.y - dy)
    key = "move/%s/%d" % (RN[rule_], d)
    r = Run(s, "ct_move", [t.ptr])
    out = [r.returns(key + "/returns")]
    for n, v in (("x", t.x + dx), ("y", t.y + dy), ("indexBinary", t.ib + dx + dy * t.b.stride), ("indexLabel", t.il + dx + dy * t.l.stride),
                 ("dir", P(d)), ("label", t.label)):
        out.append(r.decide(t.f(r.st, n), v, n + " afterwards", key="%s/%s" % (key, n)))
    return out + [r.unchanged("b.data", key + "/binary"), r.unchanged("l.data", key + "/labels")] + r.accesses(t.regions(), key + "/access")


def ghost(s, name, n=1):
    """a recording array: element 0 counts, the others hold values"""
    s.ev.root(name, "array", esz=8, ety=("s", 64), length=P(n + 1), origin="ghost")
    a = mkarr("init", name)
    for k in range(n + 1):
        a = mkarr("st", name, a, mknode("st", TRUE, P(k), ZERO, None))
    s.st.arrs[name] = a


def gread(s, st, name, k, ctx):
    return arrays.resolve_read(s.ev.get_arr(st, name), P(k), ("s", 64), True, ctx)


def record(name, conv):
    """hook: count the call and keep what conv gives"""
    def h(ev, args, st, ctx, loc, ins):
        c = arrays.resolve_read(ev.get_arr(st, name), ZERO, ("s", 64), True, ctx)
        ev.arr_store(st, name, TRUE, ZERO, c + 1, loc)
        for k, v in enumerate(conv(ev, args, st, ctx, loc)):
            ev.arr_store(st, name, TRUE, P(k + 1), v, loc)
        return None
    return h


def fn_named(w, *parts):
    """mangled names of the defined functions that contain all parts"""
    return [f for f in w.mod.functions if all(p in f for p in parts)]


def point_at(ev, args, st, ctx, loc):
    p = args[1]
    out = []
    for k in (0, 4):
        v = ev.load(st, b_shift(p, k), ir.Ty("int", 32), ctx, loc)
        out.append(ctx.simp(S(32, v)))
    return out


def b_shift(p, d):
    return Ptr(tuple((g, r, o + d) for g, r, o in p.alts))


def o_add(w, rule_):
    s = Setup(w)
    t = Tracer(s, rule_)
    ghost(s, "push", 2)
    for f in fn_named(w, "PackedSet", "push_tail", "Point2D"):
        s.ev.hooks[("fn", f)] = record("push", point_at)
    px, py = s.s("px", 0, 1 << 15), s.s("py", 0, 1 << 15)
    key = "add/" + RN[rule_]
    r = Run(s, "ct_add", [t.ptr, px, py])
    room = ge0(t.maxc - t.z - 1)
    out = [r.returns(key + "/returns"), r.decide(gread(s, r.st, "push", 0, r.ctx), b_poly(room), "points recorded", key=key + "/count")]
    c = r.ctx.with_bdd(room)
    out.append(r.decide(gread(s, r.st, "push", 1, c), px - 1, "x recorded", ctx=c, key=key + "/x"))
    out.append(r.decide(gread(s, r.st, "push", 2, c), py - 1, "y recorded", ctx=c, key=key + "/y"))
    X, Y = r.var("X", 0, t.w - 1), r.var("Y", 0, t.h - 1)
    here = b_and(eq0(X - t.x + 1), eq0(Y - t.y + 1))
    out.append(r.decide(t.l.final(r.st, X, Y, r.ctx), ite(here, t.label, t.l.px(X, Y)), "label image afterwards", key=key + "/label"))
    for n, v in (("indexBinary", t.ib), ("indexLabel", t.il), ("x", t.x), ("y", t.y), ("label", t.label)):
        out.append(r.decide(t.f(r.st, n), v, n + " afterwards", key="%s/%s" % (key, n)))
    out.append(r.unchanged("b.data", key + "/binary"))
    return out + r.accesses(t.regions(), key + "/access")


def o_max(w):
    s = Setup(w)
    t = Tracer(s, EIGHT)
    v = s.s("v", 0, (1 << 32) - 1)
    r = Run(s, "ct_max", [t.ptr, v])
    return [r.decide(U(32, t.f(r.st, "maxContourSize")), v, "largest contour", key="max")]


def o_trace1(w, rule_, ext):
    """a trace whose start has no black neighbour: one point is recorded, at the right place, searching from the right direction"""
    s = Setup(w)
    t = Tracer(s, rule_)
    for n in ("x", "y", "label", "indexBinary", "indexLabel", "dir"):
        s.st.cells[("t", s.offset(TR, n))] = s.s("old." + n, 0, (1 << 31) - 1)
    ghost(s, "add", 4)
    ghost(s, "search", 4)
    g = lambda st, n: s.get(st, "t", TR, n)
    s.ev.hooks[("fn", M + "3addEii")] = record("add", lambda ev, a, st, ctx, loc: [S(32, a[1]), S(32, a[2]), g(st, "indexLabel"), g(st, "label")])

    def srch(ev, a, st, ctx, loc, ins):
        record("search", lambda ev, a, st, ctx, loc: [g(st, "indexBinary"), g(st, "dir"), g(st, "x"), g(st, "y")])(ev, a, st, ctx, loc, ins)
        return FALSE
    for f in ("11searchBlackEv", "12searchBlack4Ev", "12searchBlack8Ev"):
        s.ev.hooks[("fn", M + f)] = srch
    key = "trace/%s/%s/isolated" % (RN[rule_], "external" if ext else "internal")
    x0, y0 = t.x, t.y
    r = Run(s, "ct_trace", [t.ptr, t.label, x0, y0, P(1 if ext else 0)])
    out = [r.returns(key + "/returns")]
    for n, want in (("add", [x0, y0, t.il, t.label]), ("search", [t.ib, P((7 if ext else 3) if rule_ == EIGHT else (0 if ext else 2)), x0, y0])):
        out.append(r.decide(gread(s, r.st, n, 0, r.ctx), ONE, "%s calls" % n, key="%s/%s" % (key, n)))
        for k, v in enumerate(want):
            out.append(r.decide(gread(s, r.st, n, k + 1, r.ctx), v, "%s: %s" % (n, (("x", "y", "label pixel", "label") if n == "add" else
                       ("binary pixel", "first direction", "x", "y"))[k]), key="%s/%s%d" % (key, n, k)))
    return out


class Label:
    """a LinearContourLabelChang2004 parameter"""

    def __init__(self, s, rule_=EIGHT):
        self.s, self.rule = s, rule_
        t = self.t = Tracer(s, rule_)
        self.nc = s.s("nc", 0, 1 << 20)
        self.minc = s.s("minc", 0, (1 << 32) - 1)
        self.maxc = s.s("lmaxc", 0, (1 << 32) - 1)
        self.save = s.s("save", 0, 1)
        self.B = s.s("B", 1, 1 << 20)
        self.nb = s.s("nb", 1, 1 << 20)
        self.pb, self.po = s.s("pb", 0), s.s("po", 0)
        s.ctx.add_ge(self.B - 1 - self.po)
        total = self.pb * self.B + self.po + t.z
        self.start = self.pb * self.B + self.po
        self.total = total
        s.ctx.add_ge(self.nb * self.B - total)
        a = mkarr("init", "ps.info")
        for k, v in enumerate((self.pb, self.po, t.z)):
            a = mkarr("st", "ps.info", a, mknode("st", TRUE, (t.n - 1) * 3 + k, v, None))
        s.st.arrs["ps.info"] = a
        self.cur = s.obj("cur", "ContourPacked", {"id": s.s("cur.id", 0, 1 << 20), "externalIndex": s.s("cur.ext", 0, 1 << 20),
                                                  "internalIndexes.d": self.arr("cur.int"), "internalIndexes.n": s.s("cur.nint", 0, 1 << 20)})
        self.fields = {"minContourSize": self.minc, "maxContourSize": self.maxc, "saveInternalContours": self.save, "rule": P(rule_),
                       "tracer": t.ptr, "packedPoints._number_of_blocks": self.nb, "packedPoints._size_of_block": self.B,
                       "packedPoints._total_element": total, "packedPoints.set_info.d": mkptr("ps.info"), "packedPoints.set_info.n": t.n,
                       "contours.cur": self.cur, "contours.n": self.nc, "contours.sel": 0, "contours.used": 0, "contours.other": 0,
                       "x": t.x, "y": t.y, "indexIn": t.ib, "indexOut": t.il}
        self.ptr = s.obj("lc", LC, {})
        for n, v in self.fields.items():
            s.st.cells[("lc", self.off(n))] = v if isinstance(v, Ptr) else P(v)
        s.st.cells[("t", s.offset(TR, "storagePoints"))] = mkptr("lc", P(self.off("packedPoints")))

    def arr(self, n):
        self.s.ev.root(n, "array", esz=4, ety=("u", 32), length=P(1 << 30), origin="param")
        return mkptr(n)

    def off(self, dotted):
        p = dotted.split(".")
        mem = self.s.w.type_members(LC)
        o = mem[p[0]][0]
        if len(p) > 1:
            cls = {"packedPoints": PT, "contours": "sa_vector<boofcv::ContourPacked>", "border": "Gray<unsigned char>"}[p[0]]
            o += self.s.offset(cls, ".".join(p[1:]))
        return o

    def f(self, st, n):
        return st.cells.get(("lc", self.off(n)))

    def info(self, st, k, f, ctx):
        return read_ptr(self.s, st, self.f(st, "packedPoints.set_info.d"), P(k) * 3 + f, ("u", 32), True, ctx)

    def trace_hook(self, grown):
        """trace(): the last set grows by `grown` points"""
        s = self.s

        def h(ev, a, st, ctx, loc, ins):
            t = s.get(st, "t", TR, "maxContourSize") if isinstance(a[0], Ptr) and a[0].single() and a[0].single()[0] == "t" else None
            n = self.f(st, "packedPoints.set_info.n")
            rec = lambda ev, a, st, ctx, loc: [S(32, a[1]), U(32, a[2]), U(32, a[3]), b_poly(a[4]) if isinstance(a[4], BDD) else P(a[4]), P(U(32, t)) if t is not None else T.sym("nomax"), n]
            record("trace", rec)(ev, a, st, ctx, loc, ins)
            z = arrays.resolve_read(ev.get_arr(st, "ps.info"), ctx.simp((n - 1) * 3 + 2), ("u", 32), True, ctx)
            ev.arr_store(st, "ps.info", TRUE, ctx.simp((n - 1) * 3 + 2), z + grown, loc)
            st.cells[("lc", self.off("packedPoints._total_element"))] = self.f(st, "packedPoints._total_element") + grown
            return None
        ghost(s, "trace", 6)
        s.ev.hooks[("fn", M + "5traceEijjb")] = h


def o_step(w, which, zero=False):
    """handleStep1 / handleStep2"""
    s = Setup(w)
    lc = Label(s)
    t = lc.t
    g = s.s("grown", 0, 1 << 24)
    s.ctx.add_ge(P(1 << 28) - lc.total - g)
    lc.trace_hook(g)
    key = which + ("/unlabelled" if zero else "")
    inner = which == "step2"
    if inner:
        s.ctx.add_ge(lc.nc - 1)
        if zero:
            s.ctx.add_ge(t.x - 2)       # such a pixel is not the first of its row
            lab = s.s("lab", 1)
            s.ctx.add_ge(lc.nc - lab)
            s.st.arrs["l.data"] = mkarr("st", "l.data", mkarr("init", "l.data"), mknode("st", TRUE, t.il - 1, lab, None))
            arg = ZERO
        else:
            arg = lab = s.s("lab", 1)
            s.ctx.add_ge(lc.nc - lab)
        r = Run(s, "lc_step2", [lc.ptr, t.l.ptr, arg])
        sel, nc = lab - 1, lc.nc
        mx = ite(eq0(lc.save), ZERO, lc.maxc)
    else:
        r = Run(s, "lc_step1", [lc.ptr])
        sel, nc, lab = lc.nc, lc.nc + 1, lc.nc + 1
        mx = lc.maxc
    out = [r.returns(key + "/returns")]
    D = lambda got, want, what, k, ctx=None: out.append(r.decide(got, want, what, key="%s/%s" % (key, k), ctx=ctx))
    # the trace
    for k, (n, v) in enumerate((("calls", ONE), ("label", lab), ("x", t.x), ("y", t.y), ("external", P(0 if inner else 1)), ("largest contour", mx),
                                ("sets before the trace", t.n + 1))):
        D(gread(s, r.st, "trace", k, r.ctx), v, "trace: " + n, "trace/" + n.replace(" ", "-"))
    # contour record
    D(U(32, lc.f(r.st, "contours.n")), nc, "contours afterwards", "contours")
    one = eq0(lc.f(r.st, "contours.other"))
    if one is TRUE:
        D(lc.f(r.st, "contours.sel"), sel, "contour written", "record")
        cur = lambda n: s.get(r.st, "cur", "ContourPacked", n)
        if inner:
            D(cur("id"), T.sym("cur.id"), "id afterwards", "id")
            D(cur("externalIndex"), T.sym("cur.ext"), "external contour afterwards", "external")
            nint = T.sym("cur.nint")
            D(cur("internalIndexes.n"), nint + 1, "internal contours afterwards", "internal-count")
            D(read_ptr(s, r.st, cur("internalIndexes.d"), nint, ("u", 32), True, r.ctx), t.n, "index of the new internal contour", "internal-index")
        else:
            D(cur("id"), lab, "id", "id")
            D(cur("externalIndex"), t.n, "index of the external contour", "external")
            D(cur("internalIndexes.n"), ZERO, "internal contours", "internal-count")
    # storage: one set more, dropped points when too long or too short
    keep = b_and(ge0(lc.maxc - g - 1), ge0(g - lc.minc))
    D(lc.f(r.st, "packedPoints.set_info.n"), t.n + 1, "sets afterwards", "sets")
    D(lc.info(r.st, t.n, 2, r.ctx), ite(keep, g, ZERO), "points kept in the new set", "points")
    b, o = lc.info(r.st, t.n, 0, r.ctx), lc.info(r.st, t.n, 1, r.ctx)
    D(b * lc.B + o if b is not None and o is not None else None, lc.total, "start of the new set", "start")
    for f_, v in enumerate((lc.pb, lc.po, t.z)):
        D(lc.info(r.st, t.n - 1, f_, r.ctx), v, "record of the set before", "before%d" % f_)
    D(lc.f(r.st, "packedPoints._total_element"), lc.total + ite(keep, g, ZERO), "elements afterwards", "total")
    if not zero:
        out.append(r.unchanged("l.data", key + "/labels"))
    out.append(r.unchanged("b.data", key + "/binary"))
    return out + r.accesses(t.regions(), key + "/access")


def o_step3(w):
    s = Setup(w)
    lc = Label(s)
    t = lc.t
    s.ctx.add_ge(t.x - 2)
    r = Run(s, "lc_step3", [lc.ptr, t.l.ptr])
    X, Y = r.var("X", 0, t.w - 1), r.var("Y", 0, t.h - 1)
    here = b_and(eq0(X - t.x + 1), eq0(Y - t.y + 1))
    old = t.l.px(t.x - 1, t.y - 1)
    return [r.returns("step3/returns"),
            r.decide(t.l.final(r.st, X, Y, r.ctx), ite(b_and(here, eq0(old)), t.l.px(t.x - 2, t.y - 1), t.l.px(X, Y)), "label image afterwards", key="step3/label"),
            r.unchanged("b.data", "step3/binary")] + r.accesses(t.regions(), "step3/access")


class Pass:
    """process(): a labelling object with any history, its three steps taken as given"""

    def __init__(self, w, rule_, kind, guards, inner=False):
        s = self.s = Setup(w)
        s.ev.hooks["ptrmem"] = True
        if inner:
            self.w, self.h = s.s("w", 1, 1 << 13), s.s("h", 1, 1 << 13)
        else:
            self.w, self.h = s.s("fw", 3, 1 << 13) - 2, s.s("fh", 3, 1 << 13) - 2      # size of the framed copy is (fw,fh)
        W, H = self.w, self.h
        self.bin = Img(s, "bin", "U8", W, H, sub=True)
        # label image: same shape (possibly a view) or an owned one of another size
        if kind == "same":
            self.lab = Img(s, "lab", "S32", W, H, sub=True)
            BW, BH = W + 2, H + 2
        else:
            self.lab = Img(s, "lab", "S32", 0, 0, stride=0, offset=0, length=0)
            BW, BH = s.s("bw", 0, 1 << 13), s.s("bh", 0, 1 << 13)
            if kind == "fresh":
                BW, BH = ZERO, ZERO
            elif kind == "wider":
                s.ctx.add_ge(BW - W - 3)
            elif kind == "taller":
                BW = W + 2
                s.ctx.add_ge(BH - H - 3)
            elif kind == "shorter":
                BW = W + 2
                s.ctx.add_ge(H + 1 - BH)
        for im in (self.bin, self.lab):
            s.ctx.add_ge(P(1 << 15) - im.stride)
            s.ctx.add_ge(P(1 << 20) - im.offset)
        blen = ZERO if kind == "fresh" else s.s("blen", 0, 1 << 28)
        if kind != "fresh":
            s.ctx.add_ge(blen - BW * BH)
            s.array("border.data", "U8", blen, heap="_Znam")
        self.ptr = s.obj("lc", LC, {})
        s.ev.root("ps.info", "array", esz=4, ety=("u", 32), length=P(1 << 30), origin="param")
        vt = "_ZTVN6boofcv4GrayIhEE"
        s.ev.const_ptr("@" + vt)
        f = {"minContourSize": s.s("minc", 0, (1 << 32) - 1), "maxContourSize": s.s("maxc", 0, (1 << 32) - 1), "saveInternalContours": s.s("save", 0, 1),
             "rule": P(rule_), "tracer": NULL, "packedPoints._number_of_blocks": s.s("nb", 1, 1 << 20), "packedPoints._size_of_block": s.s("B", 1, 1 << 20),
             "packedPoints._total_element": s.s("total", 0, 1 << 28), "packedPoints.set_info.d": mkptr("ps.info"),
             "packedPoints.set_info.n": s.s("nsets", 0, 1 << 20), "contours.cur": NULL, "contours.n": s.s("ncont", 0, 1 << 20), "contours.sel": ZERO,
             "contours.used": ZERO, "contours.other": ZERO, "x": s.s("ox", 0, 1 << 20), "y": s.s("oy", 0, 1 << 20),
             "indexIn": s.s("oin", 0, 1 << 28), "indexOut": s.s("oout", 0, 1 << 28),
             "border.width": BW, "border.height": BH, "border.stride": BW, "border.offset": ZERO, "border.data_length": blen,
             "border.data": NULL if kind == "fresh" else mkptr("border.data"), "border.subimage": ZERO, "border._vptr": mkptr(vt, P(16))}
        for rl, tn in ((FOUR, "tracer4"), (EIGHT, "tracer8")):
            N = len(dirs(rl))
            f.update({tn + ".rule": P(rl), tn + ".ruleN": P(N), tn + ".storagePoints": NULL, tn + ".binary": NULL, tn + ".labeled": NULL,
                      tn + ".maxContourSize": s.s(tn + ".max", 0, (1 << 32) - 1)})
            for a in ("offsetsBinary", "offsetsLabeled", "nextDirection"):
                s.ev.root(tn + a, "array", esz=4, ety=("s", 32), length=P(N), origin="param", heap="_Znam")
                f[tn + "." + a] = mkptr(tn + a)
        for n, v in f.items():
            s.st.cells[("lc", self.off(n))] = v if isinstance(v, Ptr) else P(v)
        # steps: only recorded, one slot per pixel
        GS = W + 2
        for nme in ("S1", "S2", "S3", "S2label", "In", "Out"):
            s.ev.root(nme, "array", esz=8, ety=("s", 64), length=None, origin="ghost")

        def step(nme):
            def h(ev, a, st, ctx, loc, ins):
                at = ctx.simp(self.f(st, "y") * GS + self.f(st, "x"))
                ev.arr_store(st, nme, TRUE, at, ONE, loc)
                if nme == "S2":
                    ev.arr_store(st, "S2label", TRUE, at, U(32, a[2]), loc)
                ev.arr_store(st, "In", TRUE, at, self.f(st, "indexIn"), loc)
                ev.arr_store(st, "Out", TRUE, at, self.f(st, "indexOut"), loc)
                return None
            return h
        for n, fn in (("S1", "11handleStep1Ev"), ("S2", "11handleStep2ERNS_4GrayIiEEj"), ("S3", "11handleStep3ERNS_4GrayIiEE")):
            s.ev.hooks[("fn", L + fn)] = step(n)
        nc = ZERO
        if guards:
            # arbitrary contents from here on
            nc = s.s("nc", 0, 1 << 20)

            def hv(ev, a, st, ctx, loc, ins):
                return None
            for f_ in fn_named(w, "ImageMiscOps", "fill") + fn_named(w, "Gray", "copy"):
                s.ev.hooks[("fn", f_)] = hv
        self.nc = nc
        s.ev.hooks[("fn", "sa_cleared")] = lambda ev, a, st, ctx, loc, ins: nc
        self.r = Run(s, "lc_process", [self.ptr, self.bin.ptr, self.lab.ptr])
        self.GS = GS

    def off(self, dotted):
        p = dotted.split(".")
        mem = self.s.w.type_members(LC)
        o = mem[p[0]][0]
        if len(p) > 1 and p[1] != "_vptr":
            cls = {"packedPoints": PT, "contours": "sa_vector<boofcv::ContourPacked>", "border": "Gray<unsigned char>", "tracer4": TR, "tracer8": TR}[p[0]]
            o += self.s.offset(cls, ".".join(p[1:]))
        return o

    def f(self, st, n):
        return st.cells.get(("lc", self.off(n)))

    def bpix(self, x, y, ctx):
        """pixel (x,y) of the framed copy afterwards"""
        st = self.r.st
        return read_ptr(self.s, st, self.f(st, "border.data"), self.f(st, "border.offset") + y * self.f(st, "border.stride") + x, ("u", 8), True, ctx)


def o_prepare(w, rule_, kind):
    p = Pass(w, rule_, kind, False)
    r, s = p.r, p.s
    key = "process/%s/%s" % (RN[rule_], kind)
    out = [r.returns(key + "/returns")]
    D = lambda got, want, what, k, ctx=None: out.append(r.decide(got, want, what, key="%s/%s" % (key, k), ctx=ctx))
    for n, v in (("width", p.w + 2), ("height", p.h + 2)):
        D(p.f(r.st, "border." + n), v, "%s of the framed copy" % n, "border-" + n)
    for n, v in (("width", p.w), ("height", p.h)):
        D(p.lab.field(r.st, n), v, "%s of the label image" % n, "label-" + n)
    X, Y = r.var("X", 0, p.w - 1), r.var("Y", 0, p.h - 1)
    D(p.bpix(X + 1, Y + 1, r.ctx), p.bin.px(X, Y), "framed copy at (x+1,y+1)", "copy")
    if kind == "same":
        D(p.lab.final(r.st, X, Y, r.ctx), ZERO, "label before the pass", "labels")
    if kind != "same":
        for nm, e in (("top", lambda c: (X, ZERO)), ("bottom", lambda c: (X, p.h + 1)), ("left", lambda c: (ZERO, Y)), ("right", lambda c: (p.w + 1, Y)),
                      ("corner0", lambda c: (ZERO, ZERO)), ("corner1", lambda c: (p.w + 1, ZERO)), ("corner2", lambda c: (ZERO, p.h + 1)),
                      ("corner3", lambda c: (p.w + 1, p.h + 1))):
            x, y = e(r.ctx)
            D(p.bpix(x, y, r.ctx), ZERO, "frame of the copy", "frame-" + nm)
    for n in ("packedPoints.set_info.n", "packedPoints._total_element", "contours.n"):
        D(p.f(r.st, n), ZERO, n + " before the pass", n)
    tn = "tracer4" if rule_ == FOUR else "tracer8"
    tr = p.f(r.st, "tracer")
    at = ONE if isinstance(tr, Ptr) and tr.single() and tr.single()[0] == "lc" and tr.single()[1] == P(p.off(tn)) else \
        ZERO if isinstance(tr, Ptr) and tr.single() else None
    D(at, ONE, "tracer of the chosen rule", "tracer")
    D(points_to(p.f(r.st, tn + ".labeled"), "lab"), ONE, "label image given to the tracer", "tracer-label")
    for n, want in (("binary", "border"), ("storagePoints", "packedPoints")):
        q = p.f(r.st, tn + "." + n)
        D(ONE if isinstance(q, Ptr) and q.single() and q.single()[0] == "lc" and q.single()[1] == P(p.off(want)) else
          ZERO if isinstance(q, Ptr) and q.single() else None, ONE, "%s given to the tracer" % n, "tracer-" + n)
    for a, st in (("offsetsBinary", p.f(r.st, "border.stride")), ("offsetsLabeled", p.lab.field(r.st, "stride"))):
        for i, d in enumerate(dirs(rule_)):
            D(read_ptr(s, r.st, p.f(r.st, tn + "." + a), P(i), ("s", 32), True, r.ctx), d[0] + d[1] * st, "offset in direction %d" % i, "%s%d" % (a, i))
    out.append(r.unchanged("bin.data", key + "/input"))
    return out


def o_zero(w, rule_, kind):
    p = Pass(w, rule_, kind, False, True)
    r = p.r
    X, Y = r.var("X", 0, p.w - 1), r.var("Y", 0, p.h - 1)
    return r.decide(p.lab.final(r.st, X, Y, r.ctx), ZERO, "label before the pass", key="process/%s/%s/labels" % (RN[rule_], kind))


def o_guards(w, rule_):
    """when each step runs, for arbitrary contents of the framed copy and the label image"""
    p = Pass(w, rule_, "same", True)
    r, s = p.r, p.s
    key = "process/%s/steps" % RN[rule_]
    out = [r.returns(key + "/returns")]
    X, Y = r.var("X", 1, p.w), r.var("Y", 1, p.h)
    B = lambda x, y: p.bpix(x, y, r.ctx)
    lab = p.lab.final(r.st, X - 1, Y - 1, r.ctx)
    at = Y * p.GS + X
    g = lambda n, ctx=None: arrays.resolve_read(s.ev.get_arr(r.st, n), at, ("s", 64), True, ctx or r.ctx)
    none = lambda n: T.read(mkarr("init", n), at, ("s", 64), True)
    fg = eq0(B(X, Y) - 1)
    new = b_and(fg, b_and(eq0(lab), b_not(eq0(B(X, Y - 1) - 1))))
    inner = b_and(fg, eq0(B(X, Y + 1)))
    rest = b_and(fg, b_and(b_not(new), b_not(inner)))
    D = lambda got, want, what, k, ctx=None: out.append(r.decide(got, want, what, key="%s/%s" % (key, k), ctx=ctx))
    for n, c, what in (("S1", new, "an external contour is opened"), ("S2", inner, "an internal contour is opened"), ("S3", rest, "the label is copied")):
        D(g(n), ite(c, ONE, none(n)), what, n)
    c = r.ctx.with_bdd(fg)
    D(g("In", c), p.f(r.st, "border.offset") + Y * p.f(r.st, "border.stride") + X, "pixel index in the framed copy", "indexIn", c)
    D(g("Out", c), p.lab.field(r.st, "offset") + (Y - 1) * p.lab.field(r.st, "stride") + X - 1, "pixel index in the label image", "indexOut", c)
    c = r.ctx.with_bdd(inner)
    D(g("S2label", c), U(32, ite(new, p.nc, lab)), "label of the internal contour", "label", c)
    return out


def o_lctor(w, rule_):
    s = Setup(w)
    s.ev.hooks["ptrmem"] = True
    s.ev.hooks[("fn", "sa_cleared")] = lambda ev, a, st, ctx, loc, ins: ZERO
    p = s.obj("lc", LC, {})
    r = Run(s, "lc_ctor", [p, P(rule_)])
    key = "ctor/" + RN[rule_]
    f = lambda n: s.get(r.st, "lc", LC, n)
    out = [r.returns(key + "/returns")]
    for n, v in (("rule", P(rule_)), ("minContourSize", ZERO), ("maxContourSize", P((1 << 32) - 1)), ("saveInternalContours", ONE),
                 ("tracer4.rule", P(FOUR)), ("tracer8.rule", P(EIGHT)), ("tracer4.ruleN", P(4)), ("tracer8.ruleN", P(8))):
        got = f(n)
        out.append(r.decide(U(32, got) if isinstance(got, Poly) else got, v, n, key="%s/%s" % (key, n)))
    return out


def o_packed(w):
    s = Setup(w)
    out = []
    for fn, n0 in (("cp_ctor", None), ("cp_reset", 5)):
        s = Setup(w)
        s.ev.hooks["ptrmem"] = True
        s.ev.root("ii", "array", esz=4, ety=("u", 32), length=P(1 << 30), origin="param")
        flds = {} if n0 is None else {"id": s.s("i", 0), "externalIndex": s.s("e", 0), "internalIndexes.d": mkptr("ii"), "internalIndexes.n": s.s("n", 0)}
        p = s.obj("c", "ContourPacked", flds)
        r = Run(s, fn, [p])
        for f_, v in (("id", P((1 << 32) - 1)), ("externalIndex", P((1 << 32) - 1)), ("internalIndexes.n", ZERO)):
            got = s.get(r.st, "c", "ContourPacked", f_)
            out.append(r.decide(U(32, got) if isinstance(got, Poly) else got, v, f_, key="%s/%s" % (fn, f_)))
    return out


def o_rule(w):
    out = []
    for v in (FOUR, EIGHT):
        s = Setup(w)
        lc = Label(s, EIGHT)
        r = Run(s, "lc_setrule", [lc.ptr, P(v)])
        out.append(r.decide(lc.f(r.st, "rule"), P(v), "rule afterwards", key="rule/set-" + RN[v]))
        s = Setup(w)
        lc = Label(s, v)
        r = Run(s, "lc_rule", [lc.ptr])
        out.append(r.decide(r.ret, P(v), "rule", key="rule/get-" + RN[v]))
    return out


def subterm(v, x):
    return v == x or isinstance(v, tuple) and any(subterm(q, x) for q in v)


def o_walk(w):
    """the order of steps along every path of trace(), and what ends it"""
    from sa import paths as PA
    off = lambda n: w.type_members(TR)[n][0]
    this = ("param", "this")
    ix, iy = ("param", "initialX"), ("param", "initialY")

    def model(en, p, ev, ins):
        n = ev.name
        k = len([e for e in p.events if e.kind in ("search", "move", "add")])
        if n.startswith((M + "11searchBlackEv", M + "12searchBlack")):
            p.events.append(PA.Event("search", n, (p.mem.get((this, off("dir")), ("old", "dir")),), ret=("dir", k), loc=ev.loc, func=ev.func))
            p.mem[(this, off("dir"))] = ("dir", k)
            return True, ("cmp", "eq", ("found", k), ("int", 1))
        if n.startswith(M + "10moveToNextEv"):
            p.events.append(PA.Event("move", n, (p.mem.get((this, off("dir"))),), ret=("at", k), loc=ev.loc, func=ev.func))
            p.mem[(this, off("x"))], p.mem[(this, off("y"))] = ("x", k), ("y", k)
            p.mem[(this, off("indexBinary"))], p.mem[(this, off("indexLabel"))] = ("ib", k), ("il", k)
            return True, None
        if n.startswith(M + "3addEii"):
            p.events.append(PA.Event("add", n, tuple(ev.args[1:3]), ret=None, loc=ev.loc, func=ev.func))
            return True, None
        return False, None
    stop = (M + "11searchBlackEv", M + "12searchBlack", M + "10moveToNextEv", M + "3addEii")
    en = PA.Engine([(w.mod, w.dbg)], lambda n, e: not n.startswith(stop), model=model, max_paths=2000, may_throw=lambda n: False)
    en.unroll = 3
    ps = en.run(M + "5traceEijjb", [("ptr", this, 0), ("param", "label"), ix, iy, ("param", "external")])
    bad = {}
    unknown = 0

    def V(rule_, e, text):
        bad.setdefault(rule_, (e.loc if e is not None else None, text))
    n = 0
    for p in ps:
        if p.end not in ("ret", "return"):
            continue
        n += 1
        es = [e for e in p.events if e.kind in ("search", "move", "add")]
        names = "".join({"search": "S", "move": "M", "add": "A"}[e.kind] for e in es)
        found = None
        first = next((e for e in es if e.kind == "search"), None)
        if first is not None:
            k = first.ret[1]
            found = p.lits.get(("cmp", "eq", ("found", k), ("int", 1)))
        if not re.match(r"^AS(MS(AMS)*)?$", names):
            V("order", es[-1] if es else None, "a path records, searches and moves in the order %s (A record, S search, M move)" % names)
            continue
        if found is True and names == "AS":
            V("stops-early", es[-1], "returns although the first search found a black neighbour")
        if found is False and names != "AS":
            V("isolated", es[-1], "goes on although the first search found no black neighbour")
        if found is None and first is not None and not any(subterm(l, ("found", first.ret[1])) for l in p.lits):
            V("isolated", es[-1], "the result of the first search is not used")
        x, y = ix, iy
        pend = None
        for j, e in enumerate(es):
            if e.kind == "add" and e.args != (x, y):
                if len(e.args) == 2 and all(a[0] in ("x", "y", "param") for a in e.args):
                    V("recorded", e, "records (%s,%s) at pixel (%s,%s)" % tuple(PA.show(q) for q in (e.args[0], e.args[1], x, y)))
                else:
                    unknown += 1
            if e.kind == "move":
                x, y = ("x", e.ret[1]), ("y", e.ret[1])
                pend = e
            if e.kind == "search" and pend is not None:
                prev = next(q for q in reversed(es[:j]) if q.kind == "search").ret
                d = e.args[0]
                tab = ("mem", this, off("nextDirection"))
                if not subterm(d, prev):
                    V("turn", e, "the direction searched after a move does not depend on the direction moved")
                elif d == prev:
                    V("turn", e, "after a move the search starts in the direction moved, not in the one the table gives for it")
                elif not subterm(d, tab):
                    unknown += 1
                # what was known when the walk ended or went on here
                want = [(x, ix), (y, iy), (e.ret, first.ret)]
                st = []
                for a, b in want:
                    r_ = None
                    for l, v in p.lits.items():
                        if l[0] == "cmp" and l[1] == "eq" and {l[2], l[3]} == {a, b}:
                            r_ = v
                    if r_ is None and not any(subterm(l, a) and subterm(l, b) for l in p.lits):
                        r_ = "none"
                    st.append(r_)
                if j + 1 == len(es):        # ended here
                    for (a, b), r_, nm in zip(want, st, ("column of the start", "row of the start", "first direction")):
                        if r_ in (False, "none"):
                            V("end-" + nm.replace(" ", "-"), e, "a walk ends without being back at the %s" % nm)
                elif all(r_ is True for r_ in st):
                    V("goes-on", e, "a walk goes on although it is back at its start, going in its first direction")
    out = []
    for rule_ in ("order", "stops-early", "isolated", "recorded", "turn", "end-column-of-the-start", "end-row-of-the-start", "end-first-direction", "goes-on"):
        b = bad.get(rule_)
        out.append({"key": "walk/" + rule_, "status": "refuted" if b else "proved" if n >= 3 and not unknown else "open", "loc": b[0] if b else None,
                    "leaves": n, "detail": b[1] if b else "%d paths, %d not understood" % (n, unknown)})
    return out


def obligations(ws, tier):
    w = ws["tracing"]
    obs = [Ob("tracer/unknown-rule", o_badrule, w), Ob("max", o_max, w), Ob("step1", o_step, w, "step1"), Ob("step2", o_step, w, "step2"),
           Ob("step2/unlabelled", o_step, w, "step2", True), Ob("step3", o_step3, w),
           Ob("contour", o_packed, w), Ob("walk", o_walk, w), Ob("rule", o_rule, w)]
    for rule_ in (FOUR, EIGHT):
        obs.append(Ob("tracer/" + RN[rule_], o_ctor, w, rule_))
        obs.append(Ob("set_inputs/" + RN[rule_], o_inputs, w, rule_))
        obs.append(Ob("add/" + RN[rule_], o_add, w, rule_))
        obs.append(Ob("ctor/" + RN[rule_], o_lctor, w, rule_))
        for kind in ("same", "fresh", "wider", "taller", "shorter"):
            obs.append(Ob("process/%s/%s" % (RN[rule_], kind), o_prepare, w, rule_, kind))
        obs.append(Ob("process/%s/fresh/labels" % RN[rule_], o_zero, w, rule_, "fresh"))
        obs.append(Ob("process/%s/steps" % RN[rule_], o_guards, w, rule_))
        for ext in (True, False):
            obs.append(Ob("trace/%s/%d" % (RN[rule_], ext), o_trace1, w, rule_, ext))
        for d in range(len(dirs(rule_))):
            for k in range(len(dirs(rule_)) + 1):
                obs.append(Ob("search/%s/%d/%d" % (RN[rule_], d, k), o_search, w, rule_, d, k))
            obs.append(Ob("move/%s/%d" % (RN[rule_], d), o_move, w, rule_, d))
    return obs
