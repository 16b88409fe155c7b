"""Entry configurations: symbolic parameter objects."""
from .terms import *
from . import terms as T
from .prover import Ctx
from .evalr import *
from . import ir


class World:
    """one module, prepared for evaluation"""
    _cache = {}

    def __init__(self, ll):
        self.mod = ir.parse_module(open(ll).read())
        self.dbg = ir.Debug(self.mod)
        self.members = self.dbg.struct_members()

    def type_members(self, cls):
        for ident, (name, mem) in self.members.items():
            if name == cls or ident == cls:
                return mem
        raise KeyError("no layout for " + cls)


PIX = {"U8": ("u", 8, "unsigned char", 1), "S8": ("s", 8, "signed char", 1), "S16": ("s", 16, "short", 2),
       "U16": ("u", 16, "unsigned short", 2), "S32": ("s", 32, "int", 4), "U32": ("u", 32, "unsigned int", 4),
       "F32": ("f", 32, "float", 4), "F64": ("f", 64, "double", 8), "S64": ("s", 64, "long", 8)}


class Setup:
    """builds the initial state for one entry evaluation"""

    def __init__(self, world, hooks=None):
        self.w = world
        self.ev = Evaluator(world.mod, world.dbg, hooks=hooks)
        self.ctx = Ctx()
        self.st = State()
        self.ev.field_hook = self.field
        self.objs = {}          # root -> {offset: (fieldname, size)}
        self.fieldvals = {}     # (root, off) -> value
        self.syms = []          # free symbols in dependency order
        self.images = {}

    def field(self, root, off, ty):
        return self.fieldvals.get((root, off))

    def s(self, name, ge=None, le=None):
        p = T.sym(name)
        if p.atom() not in self.syms:
            self.syms.append(p.atom())
        if ge is not None:
            self.ctx.add_ge(p - ge)
        if le is not None:
            self.ctx.add_ge(T.P(le) - p)
        return p

    def obj(self, root, cls, fields=None):
        """struct parameter; fields: {dotted name: value}"""
        self.objs[root] = cls
        self.ev.root(root, "cells", origin="param")
        mem = self.w.type_members(cls)
        for n, v in (fields or {}).items():
            off = self.offset(cls, n)
            self.st.cells[(root, off)] = T.P(v) if not isinstance(v, (Ptr, BDD, Poly)) else v
        return mkptr(root)

    def cls_of(self, root):
        return self.objs[root]

    def offset(self, cls, dotted):
        mem = self.w.type_members(cls)
        off = 0
        parts = dotted.split(".")
        for k, p in enumerate(parts):
            o, sz, tname = mem[p]
            off += o
            if k + 1 < len(parts):
                mem = self.w.type_members(tname)
        return off

    def get(self, st, root, cls, dotted):
        return st.cells.get((root, self.offset(cls, dotted)))

    def array(self, name, pix, length, heap=None, origin="param"):
        s, n, _, sz = PIX[pix]
        self.ev.root(name, "array", esz=sz, ety=(s, n), length=length, origin=origin, heap=heap)
        return mkptr(name)

    def gray(self, name, pix, W, H, stride=None, offset=None, length=None, sub=False, data=None, cls=None, vptr=True):
        """Gray<T> object.  stride None -> symbolic stride >= W"""
        s, n, cpp, sz = PIX[pix]
        cls = cls or "Gray<%s>" % cpp
        off = self.s(name + ".offset", 0) if offset is None else T.P(offset)
        if stride is None:
            strd = self.s(name + ".stride", 0)
            self.ctx.add_ge(strd - W)
        else:
            strd = T.P(stride)
        dl = self.s(name + ".data_length", 0) if length is None else T.P(length)
        data = data or name + ".data"
        if data not in self.ev.roots:
            self.array(data, pix, dl)
        f = {"width": W, "height": H, "offset": off, "stride": strd, "data_length": dl,
             "data": mkptr(data), "subimage": sub if isinstance(sub, Poly) else T.P(1 if sub else 0)}
        p = self.obj(name, cls, f)
        if vptr:
            vt = "_ZTVN6boofcv4GrayI%sEE" % {"unsigned char": "h", "short": "s", "unsigned short": "t", "int": "i",
                                            "unsigned int": "j", "float": "f", "double": "d", "signed char": "a", "long": "l"}[cpp]
            if vt in self.w.mod.globals:
                self.ev.const_ptr("@" + vt)
                self.st.cells[(name, 0)] = mkptr(vt, T.P(16))
        self.images[name] = (data, T.P(W), T.P(H), strd, off, pix)
        return p

    def kernel(self, name, cpp, width, offset, size=None, dim=1):
        pix = {"int": "S32", "float": "F32", "double": "F64", "long": "S64", "short": "S16"}[cpp]
        size = width if dim == 1 else width * width
        cap = self.s(name + ".capacity", 0)
        self.ctx.add_ge(cap - size)
        self.array(name + ".data", pix, cap, heap="_Znam")
        return self.obj(name, "Kernel%dD<%s>" % (dim, cpp), {"width": width, "offset": offset, "data.data": mkptr(name + ".data"),
                        "data.size": size, "data.array_length": cap, "data.can_resize": 1})

    def border(self, name, cpp, image):
        vt = name + ".vtable"
        self.ev.root(vt, "vtable", info=("abstract", "ImageBorder"))
        self.obj(name, "ImageBorder<%s>" % cpp, {"image": image})
        self.st.cells[(name, 0)] = mkptr(vt)
        isint = cpp not in ("float", "double")
        nbits = {"unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32, "float": 32, "double": 64}[cpp]
        sg = "f" if not isint else "u" if cpp.startswith("unsigned") else "s"

        def vcall(ev, root, args, st, ctx, loc, ty):
            x, y = ctx.simp(S(32, args[1])), ctx.simp(S(32, args[2]))
            a = T.app(name + ".outside", x, y, isint=isint)
            a.atom().extra = (sg, nbits)
            ev.trace.append(("vcall", root.name, (x, y), ctx, loc))
            return a
        self.ev.hooks["vcall"] = vcall
        return mkptr(name)

    def run(self, fname, args, path=None):
        fn = self.w.mod.functions[fname]
        ret, st, g = self.ev.call_function(fn, args, self.st, self.ctx, path or fname)
        return ret, st, g

    def pixel(self, st, img, X, Y, ctx):
        """value of pixel (X,Y) of the object `img` in state st"""
        data, W, H, stride, off, pix = self.images[img]
        s, n, _, sz = PIX[pix]
        arr = self.ev.get_arr(st, data)
        return arrays.resolve_read(arr, off + Y * stride + X, (s, n), s != "f", ctx)
