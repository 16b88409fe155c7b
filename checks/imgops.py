"""Entry configurations and specifications shared by the image-operator checks."""
import os
import random
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import ir, terms as T, arrays
from sa.setup import *
from sa.check import *
from sa.bounds import Region, check_accesses, events
from sa.interp import Undefined
from checks.common import relloc, VERIF

CPP = {"U8": "unsigned char", "S8": "signed char", "S16": "short", "U16": "unsigned short", "S32": "int", "U32": "unsigned int",
       "F32": "float", "F64": "double", "S64": "long"}
SIGNED = {"U8": "S32", "S16": "S32", "U16": "S32", "S32": "S32", "F32": "F32", "F64": "F64"}


def world(driver, tmp):
    src = os.path.join(VERIF, "drivers", driver + ".cpp")
    out = os.path.join(tmp, driver + ".ll")
    ir.compile_ll(src, out)
    return World(out)


OUTNAMES = ["o", "t", "h"]
SUFFIX = [""]           # renames the output images of a run
SHAPE = [None]          # gives the output (or second input) a shape of its own


class Img:
    """an image parameter with symbolic geometry"""

    def __init__(self, s, name, pix, W, H, **kw):
        if SUFFIX[0] and name in OUTNAMES:
            name += SUFFIX[0]
        self.s, self.name, self.pix, self.W, self.H = s, name, pix, P(W), P(H)
        self.cls = kw.pop("cls", None) or "Gray<%s>" % CPP[pix]
        self.ptr = s.gray(name, pix, self.W, self.H, cls=self.cls, **kw)
        data, _, _, self.stride, self.offset, _ = s.images[name]
        self.data = data
        self.ety = s.ev.roots[data].ety
        self.isint = pix[0] != "F"

    def px(self, x, y):
        """initial content of pixel (x,y)"""
        return T.read(mkarr("init", self.data), self.offset + y * self.stride + x, self.ety, self.isint)

    def field(self, st, f):
        return self.s.get(st, self.name, self.cls, f)

    def final(self, st, x, y, ctx):
        """content of pixel (x,y) after the call, using the geometry the object has then"""
        p = self.field(st, "data")
        off, stride = self.field(st, "offset"), self.field(st, "stride")
        if not isinstance(p, Ptr):
            return None
        idx = ctx.simp(off + y * stride + x)
        out = None
        for g, r, o in p.alts:
            if r is None:
                return None
            root = self.s.ev.roots[r]
            esz = root.esz or PIX[self.pix][3]
            oo = exact_div(o, P(esz))
            c = ctx if g is TRUE else ctx.with_bdd(g)
            if c.dead:
                continue
            v = arrays.resolve_read(self.s.ev.get_arr(st, r), c.simp(idx + oo), self.ety, self.isint, c)
            out = v if out is None else ite(g, v, out)
        return ctx.simp(cast_to(self.pix, out)) if self.isint and out is not None else out

    def region(self):
        return Region(length=None, images=((self.offset, self.stride, self.W, self.H),))


class Run:
    """one evaluated entry"""

    def __init__(self, s, fname, args):
        self.s = s
        self.ev = s.ev
        self.ctx0 = s.ctx
        self.fname = fname
        self.st0 = dict(s.st.cells)
        self.ret, self.st, self.g = s.run(fname, args, fname + SUFFIX[0])
        self.ctx = s.ctx.child()
        self.syms = list(s.syms)
        self.pre = None      # precondition on sampled valuations (contents)

    def var(self, name, lo, hi):
        """generic point lo <= v <= hi"""
        p = T.sym(name)
        self.syms.append(p.atom())
        self.ctx.add_ge(p - lo)
        self.ctx.add_ge(P(hi) - p)
        return p

    def notes(self):
        return sorted(set("%s @ %s" % (m, relloc(l)) for m, l in self.ev.notes))[:8]

    def decide(self, got, spec, what, loc=None, n=400, pre=None, ctx=None, key=None, extra=None, seed=None, same=None):
        if got is None or got is UNDEF or isinstance(got, Ptr):
            return {"status": "open", "detail": what + ": value not available", "key": key, "loc": loc}
        if isinstance(got, BDD):
            got = b_poly(got)
        if isinstance(spec, BDD):
            spec = b_poly(spec)
        pre = pre or self.pre
        seed = seed or int(os.environ.get("VERIF_SEED", "1"))
        v = decide(got, P(spec), ctx or self.ctx, self.syms, self.ev.roots, seed=seed, n=n, pre=pre, same=same)
        d = {"status": v.status, "leaves": v.leaves, "tested": v.tested, "loc": loc, "functions": len(self.ev.functions)}
        if key:
            d["key"] = key
        if v.status == "refuted":
            d["detail"] = "%s: closed form of the code gives %s, required %s for %s" % (what, v.got, v.want, v.witness)
            d["witness"] = v.witness
            d["closed_form"] = str(got)[:1500]
            d["required"] = str(spec)[:800]
            d["notes"] = self.notes()
        elif v.status == "open":
            d["detail"] = "%s: %s; notes %s" % (what, v.why, self.notes()[:3])
        if extra:
            d.update(extra)
        return d

    def returns(self, key, loc=None, expect=ONE):
        """the entry returns normally (expect: indicator closed form)"""
        return self.decide(b_poly(self.g) if isinstance(self.g, BDD) else self.g, expect, "returns normally", loc, key=key)

    def writes_at(self, root):
        """source locations that store into root"""
        out = []
        for e, g, l, a in events(self.ev.trace):
            if e[0] == "st" and e[1] == root and e[4] and e[4] not in out:
                out.append(e[4])
        return out

    def unchanged(self, root, key):
        a = self.ev.get_arr(self.st, root)
        if a.kind in ("init",):
            return {"key": key, "status": "proved", "leaves": 1}
        w = self.writes_at(root)
        return {"key": key, "status": "refuted" if w else "open", "loc": w[0] if w else None, "detail": "stores reach %s: %s" % (root, [relloc(x) for x in w])}

    def accesses(self, regions, key, kinds=("ld", "st"), pre=None, tests=250):
        pre = pre or self.pre
        rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))
        res = check_accesses(self.s, self.ev.trace, regions, rng, kinds, pre=pre, tests=tests)
        out = []
        for (k, root, loc), r in sorted(res.items(), key=str):
            st = "refuted" if r["bad"] else "proved" if not r["open"] else "open"
            d = {"key": "%s/%s:%s@%s" % (key, "read" if k == "ld" else "write", root, (loc[0].rsplit("/", 1)[-1] + ":%d" % loc[1]) if loc and loc[0] else "?"),
                 "status": st, "loc": loc, "sites": r["n"], "leaves": r["proved"]}
            if r["bad"]:
                d["detail"] = "%s of %s at index %s outside the image for %s" % ("read" if k == "ld" else "write", root, r["bad"][1], r["bad"][0])
            elif r["open"]:
                d["detail"] = "bound not derived for %d of %d accesses" % (r["open"], r["n"])
            out.append(d)
        return out


# ------------------------------------------------------------------ specifications
def clampsum(lo, hi, f):
    """sum_{lo<=j<=hi} f(j)"""
    j = T.fresh("q")
    return T.ssum(j, hi - lo + 1, f(P(j) + lo))


def inside(img, x, y):
    return b_and(b_and(ge0(x), ge0(img.W - 1 - x)), b_and(ge0(y), ge0(img.H - 1 - y)))


def bordered(img, border, x, y):
    """pixel with border: the image inside, outside_get elsewhere"""
    a = T.app(border + ".outside", x, y, isint=img.isint)
    a.atom().extra = img.ety
    return ite(inside(img, x, y), img.px(x, y), a)


def cast_to(pix, v):
    """C conversion of an integer value to an integer pixel type"""
    k, n = PIX[pix][0], PIX[pix][1]
    if k == "f":
        return v
    return U(n, v) if k == "u" else S(n, v)
