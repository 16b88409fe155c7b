"""Interprocedural gated-SSA evaluator.

Every function reachable from an entry is summarised, in its calling context, by
closed forms: scalars become polynomials over atoms (terms.py), arrays become chains
of guarded effects, loops are summarised once (affine induction variables, sums,
min/max reductions, wrap-around variables, accumulations, otherwise `fold`) - no path
is enumerated and no loop is unrolled.  Branch conditions are decided against the
facts of the current context or kept as gates (BDDs)."""
from time import time as time_now
import re
import struct
from fractions import Fraction
from .terms import *
from .terms import _poly
from . import terms as T
from . import arrays
from .prover import Ctx, lin_coef_poly
from .ir import Ty, parse_type, split_top, strip_attrs


class Unsupported(Exception):
    pass


class Root:
    __slots__ = ("name", "kind", "esz", "ety", "length", "origin", "heap", "info", "loc")

    def __init__(self, name, kind, esz=None, ety=None, length=None, origin=None, heap=None, info=None, loc=None):
        self.name, self.kind, self.esz, self.ety = name, kind, esz, ety
        self.length, self.origin, self.heap, self.info, self.loc = length, origin, heap, info, loc

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.name)


class Ptr:
    """alternatives: tuple of (guard, root name | None, byte offset)"""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "|".join("%s%s+%s" % ("" if g is TRUE else "[%r]" % g, r, show(o)) for g, r, o in self.alts)

    def single(self):
        return self.alts[0][1:] if len(self.alts) == 1 else None


def mkptr(root, off=ZERO):
    return Ptr(((TRUE, root, P(off)),))


NULL = mkptr(None)


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class State:
    __slots__ = ("cells", "arrs", "freed")

    def __init__(self):
        self.cells, self.arrs, self.freed = {}, {}, {}

    def copy(self):
        s = State()
        s.cells = dict(self.cells)
        s.arrs = dict(self.arrs)
        s.freed = dict(self.freed)
        return s


class Edge:
    __slots__ = ("src", "dst", "guard", "state", "phis", "loc")

    def __init__(self, src, dst, guard, state, phis, loc=None):
        self.src, self.dst, self.guard, self.state, self.phis, self.loc = src, dst, guard, state, phis, loc


class Frame:
    __slots__ = ("fn", "env", "path", "rets", "allocas")


def b_constrain(f, c):
    if f.var is None or c.var is None:
        return f
    v = f.var if f.var.id <= c.var.id else c.var
    fh, fl = (f.hi, f.lo) if f.var is v else (f, f)
    ch, cl = (c.hi, c.lo) if c.var is v else (c, c)
    if ch is FALSE:
        return b_constrain(fl, cl)
    if cl is FALSE:
        return b_constrain(fh, ch)
    if f.var is not v:
        return b_constrain(f, b_or(ch, cl))
    h, l = b_constrain(fh, ch), b_constrain(fl, cl)
    return T._node(v, h, l) if h is not l else h


# ------------------------------------------------------------------ CFG info
class Loop:
    __slots__ = ("header", "blocks", "parent", "children", "latch")


def analyse_cfg(fn):
    if getattr(fn, "_cfg", None):
        return fn._cfg
    entry = fn.order[0].name
    # rpo
    seen, order = set(), []
    st = [(entry, iter(fn.blocks[entry].succs))]
    seen.add(entry)
    while st:
        n, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(fn.blocks[s].succs)))
                break
        else:
            order.append(n)
            st.pop()
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    # dominators
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in fn.blocks[b].preds if p in idom]
            if not ps:
                continue
            d = ps[0]
            for p in ps[1:]:
                x, y = d, p
                while x != y:
                    while num[x] > num[y]:
                        x = idom[x]
                    while num[y] > num[x]:
                        y = idom[y]
                d = x
            if idom.get(b) != d:
                idom[b] = d
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in fn.blocks[b].succs:
            if dom(s, b):
                body = {s, b}
                work = [b] if b != s else []
                while work:
                    x = work.pop()
                    for p in fn.blocks[x].preds:
                        if p in num and p not in body:
                            body.add(p)
                            work.append(p)
                if s in loops:
                    loops[s].blocks |= body
                    loops[s].latch = None
                else:
                    L = Loop()
                    L.header, L.blocks, L.latch = s, body, b
                    loops[s] = L
            elif num[s] <= num[b]:
                raise Unsupported("irreducible control flow in " + fn.name)
    for L in loops.values():
        L.parent = None
        L.children = []
    for L in loops.values():
        for M in loops.values():
            if M is not L and L.blocks < M.blocks or (M is not L and L.header in M.blocks and L.blocks <= M.blocks):
                if L.parent is None or len(M.blocks) < len(L.parent.blocks):
                    L.parent = M
    inner = {}
    for b in rpo:
        for L in loops.values():
            if b in L.blocks and (b not in inner or len(L.blocks) < len(inner[b].blocks)):
                inner[b] = L
    # blocks from which a return is reachable
    canret = set(b for b in rpo if fn.blocks[b].insts[-1].op == "ret")
    work = list(canret)
    while work:
        x = work.pop()
        for p in fn.blocks[x].preds:
            if p in num and p not in canret:
                canret.add(p)
                work.append(p)
    fn._cfg = (rpo, loops, inner, canret)
    return fn._cfg


HEXF = re.compile(r"^0x[0-9A-Fa-f]{16}$")


def all_wraps(p, pa):
    """wrap atoms U(n,pa) / S(n,pa) inside p"""
    out, seen = [], set()

    def go(q):
        if q in seen or pa.atom() not in q.fv:
            return
        seen.add(q)
        for a in q.atoms():
            if a.kind in ("U", "S") and a.args[1] is pa:
                if a not in out:
                    out.append(a)
            else:
                for x in a.args:
                    for y in (x if isinstance(x, tuple) else (x,)):
                        if isinstance(y, Poly):
                            go(y)
    go(p)
    return out


class ReplWrap(T.Sub):
    def __init__(self, w, v):
        T.Sub.__init__(self, {a: P(a) for a in v.fv})
        self.w, self.v = w, v

    def _atom(self, a):
        if a is self.w:
            return self.v
        return T.Sub._atom(self, a)


def replace_wrap(p, w, v):
    return ReplWrap(w, v).poly(p)


def or_parts(p, n):
    """operands of a bitwise or that fits n bits, or None"""
    a = p.atom() if isinstance(p, Poly) else None
    if a is None:
        return None
    if a.kind in ("U", "S") and a.args[0] >= n:
        return or_parts(a.args[1], n)
    if a.kind == "app" and a.args[0] == "or%d" % n:
        out = []
        for x in a.args[1:]:
            out += or_parts(x, n) or [x]
        return out
    return None


class Evaluator:
    def __init__(self, mod, dbg=None, hooks=None, limit=400):
        self.mod = mod
        self.dbg = dbg
        self.lay = mod.layout
        self.roots = {}
        self.trace = []
        self.hooks = hooks or {}
        self.depth = 0
        self.limit = limit
        self.functions = set()
        self.notes = []
        self.calls = 0
        self.loops = 0
        self.vtables = {}
        self.field_hook = None
        self.steps = 0
        self.ldepth = 0
        self.max_steps = 3000000
        self.deadline = None

    # -------------------------------------------------------------- roots
    def root(self, name, kind, **kw):
        r = Root(name, kind, **kw)
        self.roots[name] = r
        return r

    def note(self, msg, loc=None):
        self.notes.append((msg, loc))

    def loc(self, ins):
        return self.dbg.loc(ins.dbg) if self.dbg else None

    # -------------------------------------------------------------- operands
    def const(self, ty, s):
        s = s.strip()
        if s in ("undef", "poison"):
            return UNDEF
        if s == "null":
            return NULL
        if ty.k == "int":
            if s == "true":
                return TRUE
            if s == "false":
                return FALSE
            if s == "zeroinitializer":
                return ZERO
            if re.match(r"^-?\d+$", s):
                if ty.a == 1:
                    return TRUE if int(s) & 1 else FALSE
                return P(int(s))
        if ty.k == "float":
            if HEXF.match(s):
                d = struct.unpack(">d", bytes.fromhex(s[2:]))[0]
                if d != d or d in (float("inf"), float("-inf")):
                    return app("const_" + s)
                return P(T._norm(Fraction(d)))
            try:
                f = Fraction(s)
                return P(T._norm(f))
            except ValueError:
                return app("const_" + s)
        if ty.k == "ptr":
            return self.const_ptr(s)
        if s == "zeroinitializer":
            return self.zero_of(ty)
        raise Unsupported("constant %s %s" % (ty, s))

    def zero_of(self, ty):
        ty = self.lay.resolve(ty)
        if ty.k in ("int", "float"):
            return FALSE if ty.k == "int" and ty.a == 1 else ZERO
        if ty.k == "ptr":
            return NULL
        raise Unsupported("zero of %s" % ty)

    def const_ptr(self, s):
        if s.startswith("@"):
            name = s[1:].strip('"')
            if name not in self.roots:
                if name in self.mod.functions or name in self.mod.declares:
                    self.root(name, "fn")
                elif name in self.mod.globals:
                    g = self.mod.globals[name]
                    if name.startswith("_ZTV"):
                        self.root(name, "vtable", info=g)
                    else:
                        self.make_global(name, g)
                else:
                    self.root(name, "fn")
            return mkptr(name)
        if s.startswith("getelementptr"):
            inner = s[s.index("(") + 1:s.rindex(")")]
            ps = split_top(inner)
            ty = parse_type(ps[0])[0]
            base = parse_type(ps[1])[1].strip()
            base = strip_attrs(base)[0]
            p = self.const_ptr(base)
            off = 0
            idxs = []
            for q in ps[2:]:
                q = re.sub(r"^inrange\s+(\([^)]*\)\s+)?", "", q.strip())
                idxs.append(int(parse_type(q)[1]))
            off = self.gep_const(ty, idxs)
            r, o = p.single()
            return mkptr(r, o + off)
        raise Unsupported("constant pointer " + s)

    def gep_const(self, ty, idxs):
        off = idxs[0] * self.lay.size(ty)
        t = ty
        for i in idxs[1:]:
            t = self.lay.resolve(t)
            if t.k == "struct":
                offs, _, _ = self.lay.struct(t)
                off += offs[i]
                t = t.a[0][i]
            else:
                t = t.a[1]
                off += i * self.lay.size(t)
        return off

    def make_global(self, name, g):
        m = re.match(r"(?:[\w()]+\s+)*?(global|constant)\s+(.*)$", g)
        r = self.root(name, "global", info=g)
        if not m:
            return
        try:
            t, rest = parse_type(m.group(2))
        except Exception:
            return
        rt = self.lay.resolve(t)
        if rt.k == "array" and m.group(1) == "constant" and rt.a[1].k == "int":
            vals = None
            rest = rest.strip()
            if rest.startswith("["):
                body = rest[1:rest.index("]")]
                vals = [int(parse_type(x)[1]) for x in split_top(body)]
            elif rest.startswith("zeroinitializer"):
                vals = [0] * rt.a[0]
            if vals is not None:
                r.kind = "array"
                r.esz = self.lay.size(rt.a[1])
                r.ety = ("s", 8 * r.esz)
                r.length = P(len(vals))
                r.info = ("const", vals)
        elif rt.k in ("int", "float", "ptr"):
            r.kind = "cells"
            r.info = ("globalcell", m.group(1), t, rest)

    def val(self, fr, ty, s):
        if isinstance(s, str) and s.startswith("%"):
            try:
                return fr.env[s]
            except KeyError:
                raise Unsupported("undefined value %s in %s" % (s, fr.fn.name))
        return self.const(ty, s)

    # -------------------------------------------------------------- value helpers
    def as_poly(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, BDD):
            return b_poly(v)
        if v is UNDEF:
            return P(fresh("undef"))
        if isinstance(v, Ptr):
            s = v.single()
            if s:
                return (sym("addr:" + s[0]) if s[0] else ZERO) + s[1]
        raise Unsupported("not a scalar: %r" % (v,))

    def as_bdd(self, v, ctx):
        if isinstance(v, BDD):
            return v
        if v is UNDEF:
            return b_lit(mk("ind", "eq", P(fresh("undefb"))))
        p = ctx.simp(v)
        b = poly_bdd(p)
        if b is not None:
            return b
        return eq0(ctx.simp(U(1, p)) - 1)

    def ite_val(self, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, BDD) and isinstance(b, BDD):
            return b_ite(c, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.alts == b.alts:
                return a
            sa, sb = a.single(), b.single()
            if sa and sb and sa[0] == sb[0]:
                return mkptr(sa[0], ite(c, sa[1], sb[1]))
            alts = []
            for g, r, o in a.alts:
                g2 = b_and(c, g)
                if g2 is not FALSE:
                    alts.append((g2, r, o))
            for g, r, o in b.alts:
                g2 = b_and(b_not(c), g)
                if g2 is not FALSE:
                    alts.append((g2, r, o))
            # join same targets
            out = []
            for g, r, o in alts:
                for k, (g1, r1, o1) in enumerate(out):
                    if r1 == r:
                        gg = b_or(g1, g)
                        out[k] = (gg, r, ite(b_constrain(g, gg), o, o1))
                        break
                else:
                    out.append((g, r, o))
            if len(out) == 1:
                out = [(TRUE,) + out[0][1:]]
            return Ptr(tuple(out))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.ite_val(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return UNDEF
        return ite(c, self.as_poly(a), self.as_poly(b))

    def merge_vals(self, gvs):
        """[(guard, value)] guards relative to the region; disjoint"""
        tot = FALSE
        for g, _ in gvs:
            tot = b_or(tot, g)
        v = gvs[-1][1]
        for g, x in reversed(gvs[:-1]):
            v = self.ite_val(b_constrain(g, tot), x, v)
        return v

    # -------------------------------------------------------------- state merge
    def chain(self, arr):
        out = []
        while arr.kind == "st":
            out.append(arr.args[1])
            arr = arr.args[0]
        return arr, out[::-1]

    def guard_node(self, g, n):
        if g is TRUE:
            return n
        if n.kind == "loop":
            return mknode("loop", n.args[0], n.args[1], tuple(self.guard_node(g, c) for c in n.args[2]))
        return mknode(n.kind, b_and(g, n.args[0]), *n.args[1:])

    def merge_states(self, edges):
        live = edges
        tot = FALSE
        for e in live:
            tot = b_or(tot, e.guard)
        if len(live) == 1:
            return tot, live[0].state.copy()
        st = State()
        keys = set()
        for e in live:
            keys.update(e.state.cells)
        cg = [b_constrain(e.guard, tot) for e in live]
        for k in keys:
            vs = [e.state.cells.get(k) for e in live]
            if all(v is vs[0] for v in vs):
                st.cells[k] = vs[0]
                continue
            if any(v is None for v in vs):
                # missing on some path: initial content there
                vs = [self.load_missing(k, w) if v is None else v for v, w in
                      zip(vs, [next(x for x in vs if x is not None)] * len(vs))]
            v = vs[-1]
            for g, x in zip(cg[-2::-1], vs[-2::-1]):
                v = self.ite_val(g, x, v)
            st.cells[k] = v
        keys = set()
        for e in live:
            keys.update(e.state.arrs)
        for k in keys:
            vs = [self.get_arr(e.state, k) for e in live]
            if all(v is vs[0] for v in vs):
                st.arrs[k] = vs[0]
                continue
            ch = [self.chain(v) for v in vs]
            if any(c[0] is not ch[0][0] for c in ch):
                # different bases: drop to the ones that exist
                b = ch[0][0]
                base = mkarr("var", k, fresh("arrmix").__class__ and T.mk("sym", "arrmix#%d" % T._fresh[0]))
                T._fresh[0] += 1
                self.note("array %s merged from different bases" % k)
                st.arrs[k] = base
                continue
            n = 0
            m = min(len(c[1]) for c in ch)
            while n < m and all(c[1][n] is ch[0][1][n] for c in ch):
                n += 1
            a = ch[0][0]
            for x in ch[0][1][:n]:
                a = mkarr("st", k, a, x)
            if all(c[1][n:] == ch[0][1][n:] for c in ch):
                for x in ch[0][1][n:]:
                    a = mkarr("st", k, a, x)
                st.arrs[k] = a
                continue
            for g, c in zip(cg, ch):
                for x in c[1][n:]:
                    a = mkarr("st", k, a, self.guard_node(g, x))
            st.arrs[k] = a
        for e in live:
            st.freed.update(e.state.freed)
        return tot, st

    def load_missing(self, key, like):
        root, off = key[0], key[1]
        r = self.roots.get(root)
        if r is not None and r.kind == "cells" and r.heap is None and r.origin == "param":
            v = self.field(root, off, None)
            if v is not None:
                return v
        return UNDEF

    def get_arr(self, st, root):
        a = st.arrs.get(root)
        if a is None:
            r = self.roots.get(root)
            if r is not None and r.origin in ("heap", "stack"):
                a = mkarr("undef", root)
            else:
                a = mkarr("init", root)
        return a

    # -------------------------------------------------------------- memory
    def field(self, root, off, ty):
        if self.field_hook:
            return self.field_hook(root, off, ty)
        return None

    def scalar_desc(self, ty):
        if ty.k == "int":
            return ("i", ty.a)
        if ty.k == "float":
            return ("f", ty.a)
        return ("p", 64)

    def fresh_of(self, name, ty):
        if ty.k == "int":
            a = P(fresh(name))
            return eq0(a) if ty.a == 1 else a
        if ty.k == "float":
            return P(fresh(name, isint=False))
        if ty.k == "ptr":
            n = "%s#%d" % (name, T._fresh[0])
            T._fresh[0] += 1
            self.root(n, "opaque")
            return mkptr(n)
        return UNDEF

    def load(self, st, ptr, ty, ctx, loc):
        ty = self.lay.resolve(ty)
        if not isinstance(ptr, Ptr):
            self.note("load through unknown pointer", loc)
            return self.fresh_of("ld", ty)
        out = None
        for g, root, off in self.const_alts(ptr, ctx):
            c = ctx if g is TRUE else ctx.with_bdd(g)
            if c.dead:
                continue
            v = self.load1(st, root, off, ty, c, loc, g)
            out = v if out is None else self.ite_val(g, v, out)
        if out is None:
            out = self.fresh_of("ld", ty)
        return out

    def const_alts(self, ptr, ctx):
        """alternatives of a pointer; a choice between fields of one object becomes one alternative per field"""
        out = []

        def split(g, root, off, n):
            if root is not None and n and self.roots[root].kind == "cells" and off.const() is None:
                v = None
                for a in off.atoms():
                    if a.kind == "ind" and (v is None or a.id < v.id):
                        v = a
                if v is not None:
                    b = poly_bdd(P(v))
                    split(b_and(g, b), root, restrict(off, v, 1), n - 1)
                    split(b_and(g, b_not(b)), root, restrict(off, v, 0), n - 1)
                    return
            if g is not FALSE:
                out.append((g, root, off))
        for g, root, off in ptr.alts:
            off = off if root is None or self.roots[root].kind != "cells" else (ctx if g is TRUE else ctx.with_bdd(g)).simp(off)
            split(g, root, off, 4)
        return out

    def load1(self, st, root, off, ty, ctx, loc, g):
        if root is None:
            self.trace.append(("null", g, loc))
            return self.fresh_of("nullload", ty)
        r = self.roots[root]
        off = ctx.simp(off)
        if r.kind == "cells":
            o = off.const()
            if o is not None:
                k = (root, o)
                v = st.cells.get(k)
                if v is None:
                    v = self.field(root, o, ty)
                    if v is None:
                        if r.origin == "stack" and not r.info == "param":
                            v = UNDEF
                        else:
                            v = self.fresh_of("%s.%d" % (root, o), ty)
                            self.note("unknown field %s+%d" % (root, o), loc)
                    st.cells[k] = v
                if v is UNDEF:
                    return self.fresh_of("uninit:%s" % root, ty)
                return self.coerce(v, ty)
            self.note("symbolic offset into %s" % root, loc)
            return self.fresh_of("ld", ty)
        if r.kind == "vtable":
            return self.vtable_entry(r, off)
        if r.kind == "array":
            size = self.lay.size(ty)
            if r.esz is None:
                r.esz, r.ety = size, self.scalar_desc(ty)
            if r.esz != size:
                self.note("access of %d bytes in array of %d byte elements" % (size, r.esz), loc)
                return self.fresh_of("ld", ty)
            idx = exact_div(off, P(r.esz))
            if idx is None:
                self.note("unaligned access", loc)
                return self.fresh_of("ld", ty)
            idx = ctx.simp(idx)
            self.trace.append(("ld", root, idx, ctx, loc, g))
            if isinstance(r.info, tuple) and r.info[0] == "const":
                k = idx.const()
                if k is not None and 0 <= k < len(r.info[1]):
                    return P(r.info[1][int(k)])
            isint = ty.k == "int"
            if ty.k == "ptr":
                if self.hooks.get("ptrarray"):
                    return self.hooks["ptrarray"](self, st, r, idx, ctx)
                if self.hooks.get("ptrmem"):
                    return self.ptr_of(arrays.resolve_read(self.get_arr(st, root), idx, r.ety, True, ctx), ctx, ty)
                return self.fresh_of("ldp", ty)
            arr = self.get_arr(st, root)
            v = arrays.resolve_read(arr, idx, r.ety, isint, ctx)
            return v
        if r.kind == "global":
            return self.fresh_of("g:" + root, ty)
        self.note("load from %r" % r, loc)
        return self.fresh_of("ld", ty)

    def coerce(self, v, ty):
        if ty.k == "ptr":
            if isinstance(v, Ptr):
                return v
            return self.fresh_of("castptr", ty)
        if isinstance(v, Ptr):
            if ty.k == "int":
                return self.as_poly(v)
            return self.fresh_of("cast", ty)
        if ty.k == "int" and ty.a == 1 and isinstance(v, Poly):
            b = poly_bdd(v)
            return b if b is not None else eq0(v - 1)
        if isinstance(v, BDD) and not (ty.k == "int" and ty.a == 1):
            return b_poly(v)
        return v

    def store(self, st, ptr, v, ty, ctx, loc):
        ty = self.lay.resolve(ty)
        if not isinstance(ptr, Ptr):
            self.note("store through unknown pointer", loc)
            self.havoc_all(st)
            return
        for g, root, off in ptr.alts:
            c = ctx if g is TRUE else ctx.with_bdd(g)
            if c.dead:
                continue
            if root is None:
                self.trace.append(("null", g, loc))
                continue
            r = self.roots[root]
            off = c.simp(off)
            if r.kind == "cells":
                o = off.const()
                if o is None:
                    self.note("symbolic store offset into %s" % root, loc)
                    for k in [k for k in st.cells if k[0] == root]:
                        st.cells[k] = UNDEF
                    continue
                if g is TRUE:
                    nv = v
                else:
                    old = st.cells.get((root, o))
                    if old is None:
                        old = self.load1(st, root, off, ty, c, loc, TRUE)
                    nv = self.ite_val(g, v, old)
                st.cells[(root, o)] = nv
                self.trace.append(("stc", root, o, c, loc, g, nv))
                continue
            if r.kind == "array":
                size = self.lay.size(ty)
                if r.esz is None:
                    r.esz, r.ety = size, self.scalar_desc(ty)
                if r.esz != size:
                    self.note("store of %d bytes into array of %d byte elements" % (size, r.esz), loc)
                    self.havoc_arr(st, root)
                    continue
                idx = exact_div(off, P(r.esz))
                if idx is None:
                    self.note("unaligned store", loc)
                    self.havoc_arr(st, root)
                    continue
                idx = c.simp(idx)
                self.trace.append(("st", root, idx, c, loc, g))
                if ty.k == "ptr":
                    if self.hooks.get("ptrstore"):
                        self.hooks["ptrstore"](self, st, r, idx, v, c)
                    elif self.hooks.get("ptrmem"):
                        self.arr_store(st, root, g, idx, c.simp(self.enc_ptr(v)), loc)
                    continue
                self.arr_store(st, root, g, idx, c.simp(self.as_poly(v)), loc)
                continue
            self.note("store to %r" % r, loc)

    def enc_ptr(self, v):
        """a pointer as an integer: address symbol of its object plus offset"""
        if not isinstance(v, Ptr):
            return P(fresh("undefptr"))
        out = ZERO
        for g, r, o in v.alts:
            x = o + (T.sym("addr:" + r) if r is not None else ZERO)
            out = out + (x if g is TRUE else b_poly(g) * x)
        return out

    def ptr_of(self, p, ctx, ty):
        """inverse of enc_ptr"""
        p = ctx.simp(p)
        addrs = sorted((a for a in p.fv if a.kind == "sym" and a.args[0].startswith("addr:")), key=lambda a: a.id)
        if not addrs:
            return NULL if p is ZERO else self.fresh_of("ldp", ty)
        alts, rest = [], TRUE
        for a in addrs:
            lc = lin_coef_poly(p, a)
            g = poly_bdd(ctx.simp(lc[0])) if lc is not None else None
            if g is None:
                return self.fresh_of("ldp", ty)
            if g is FALSE:
                continue
            c = ctx if g is TRUE else ctx.with_bdd(g)
            if c.dead:
                continue
            alts.append((g, a.args[0][5:], c.simp(p - P(a))))
            rest = b_and(rest, b_not(g))
        rest = ctx.bdd_value(rest)
        if rest is not FALSE:
            alts.append((rest, None, ZERO))
        if len(alts) == 1:
            alts = [(TRUE,) + alts[0][1:]]
        return Ptr(tuple(alts))

    def arr_store(self, st, root, g, idx, v, loc, kind="st"):
        a = self.get_arr(st, root)
        if kind == "st" and g is TRUE:
            while a.kind == "st" and a.args[1].kind in ("st", "acc") and (a.args[1].args[1] - idx) is ZERO:
                a = a.args[0]
        st.arrs[root] = mkarr("st", root, a, mknode(kind, g, idx, v, loc))

    def havoc_arr(self, st, root):
        T._fresh[0] += 1
        st.arrs[root] = mkarr("var", root, T.mk("sym", "havoc#%d" % T._fresh[0]))

    def unknown_call(self, name, args, st, loc):
        """a call whose body is not known may change every object it can reach"""
        self.note("call of unknown function " + name, loc)
        self.havoc_all(st)
        for a in args:
            if isinstance(a, Ptr):
                for g, r, o in a.alts:
                    if r is None:
                        continue
                    if self.roots[r].kind == "array":
                        self.havoc_arr(st, r)
                    for k in [k for k in st.cells if k[0] == r]:
                        st.cells[k] = UNDEF

    def havoc_all(self, st):
        """a store may have reached any array that outlives the frame"""
        for n, r in self.roots.items():
            if r.kind == "array" and r.origin in ("param", "heap"):
                self.havoc_arr(st, n)
        for k in [k for k in st.cells if self.roots[k[0]].origin in ("param", "heap")]:
            st.cells[k] = UNDEF

    def vtable_entry(self, r, off):
        o = off.const()
        if o is None:
            return UNDEF
        if isinstance(r.info, tuple) and r.info[0] == "abstract":
            n = "vslot:%s:%d" % (r.name, o)
            if n not in self.roots:
                self.root(n, "vslot", info=(r.info[1], int(o) // 8))
            return mkptr(n)
        m = re.search(r"\[\d+ x ptr\] \[(.*)\]", r.info)
        if not m:
            raise Unsupported("vtable " + r.name)
        ents = split_top(m.group(1))
        e = ents[int(o) // 8]
        return self.const(Ty("ptr"), parse_type(e)[1])

    # -------------------------------------------------------------- calls
    def call_function(self, fn, args, st, ctx, path):
        """-> (ret, state, guard)"""
        if self.depth > 60:
            raise Unsupported("call depth")
        cfg = analyse_cfg(fn)
        self.functions.add(fn.name)
        fr = Frame()
        fr.fn = fn
        fr.env = {}
        fr.path = path
        fr.rets = []
        fr.allocas = []
        for (n, t, at), a in zip(fn.params, args):
            fr.env[n] = a
        self.depth += 1
        try:
            entry = fn.order[0].name
            tr0 = self.trace
            self.trace = []
            if entry not in cfg[3]:
                self.throw(fr, entry, TRUE, ctx)
            else:
                self.run_region(fr, set(cfg[0]), None, {entry: [Edge(None, entry, TRUE, st, {})]}, ctx)
            tr0.extend(self.trace)
            self.trace = tr0
        finally:
            self.depth -= 1
        if not fr.rets:
            return UNDEF, st, FALSE
        edges = [Edge(None, None, g, s, None) for g, v, s in fr.rets]
        tot, out = self.merge_states(edges)
        ret = None
        if fr.rets[0][1] is not None:
            ret = self.merge_vals([(g, v) for g, v, s in fr.rets])
        if fr.allocas:
            al = set(fr.allocas)
            for k in [k for k in out.cells if k[0] in al]:
                del out.cells[k]
            for k in [k for k in out.arrs if k in al]:
                del out.arrs[k]
        return ret, out, tot

    def throw(self, fr, block, guard, ctx):
        fn = fr.fn
        seen = {block}
        work = [block]
        kind, loc = None, None
        stores = False
        while work:
            b = work.pop(0)
            for ins in fn.blocks[b].insts:
                if ins.dbg is not None and loc is None:
                    loc = self.loc(ins)
                if ins.op in ("call", "invoke"):
                    cal = ins.extra.get("callee", "")
                    if cal == "@__cxa_throw":
                        kind = ins.args[1][1].lstrip("@") if kind is None else kind
                        loc = self.loc(ins) or loc
                    elif kind is None and cal in ("@__cxa_rethrow",):
                        kind = "rethrow"
            for s in fn.blocks[b].succs:
                if s not in seen:
                    seen.add(s)
                    work.append(s)
        self.trace.append(("throw", kind, guard, ctx, loc, fn.name))

    # -------------------------------------------------------------- regions
    def run_region(self, fr, blocks, loop, pending, rctx):
        rpo, loops, inner, canret = analyse_cfg(fr.fn)
        latch, exits = [], []

        def route(e):
            if e.guard is FALSE:
                return
            if loop is not None and e.dst == loop.header:
                latch.append(e)
            elif e.dst not in blocks:
                exits.append(e)
            elif e.dst not in canret:
                self.throw(fr, e.dst, e.guard, rctx.with_bdd(e.guard))
            else:
                pending.setdefault(e.dst, []).append(e)
        for b in rpo:
            if b not in blocks or (loop is not None and b == loop.header):
                continue
            L = inner.get(b)
            if L is not loop and not (L is not None and L.header == b and L.parent is loop):
                continue
            edges = pending.pop(b, None)
            if not edges:
                continue
            if L is not loop:
                for e in self.run_loop(fr, L, edges, rctx):
                    route(e)
                continue
            guard, st = self.merge_states(edges)
            ctx = rctx.with_bdd(guard)
            if ctx.dead:
                continue
            self.merge_phis(fr, b, edges)
            for e in self.exec_block(fr, b, guard, st, rctx):
                route(e)
        return latch, exits

    def merge_phis(self, fr, b, edges):
        names = edges[0].phis.keys()
        for n in names:
            fr.env[n] = self.merge_vals([(e.guard, e.phis[n]) for e in edges])

    def phi_vals(self, fr, src, dst):
        out = {}
        for ins in fr.fn.blocks[dst].insts:
            if ins.op != "phi":
                break
            for v, b in ins.args:
                if b == src:
                    out[ins.name] = self.val(fr, ins.ty, v)
                    break
            else:
                out[ins.name] = UNDEF
        return out

    def always(self, b, ctx):
        """the gate holds in every leaf of the case split over its inner gates"""
        import time
        try:
            return self.always_split(ONE - b_poly(b), ctx, 0, time.time() + 4, [0])
        except RecursionError:
            return False

    def always_split(self, d, ctx, depth, dl, cnt):
        from .check import next_gate, gate_cases
        if ctx.dead:
            return True
        d = ctx.simp(d)
        if d is ZERO:
            return True
        cnt[0] += 1
        if depth > 9 or cnt[0] > 120 or time_now() > dl:
            return False
        a = next_gate(d, ctx)
        if a is None:
            return ctx.entails(P(-1))
        for pol, c in gate_cases(a, ctx):
            if not self.always_split(d, c, depth + 1, dl, cnt):
                return False
        return True

    def exec_block(self, fr, b, guard, st, rctx):
        """run the instructions; -> outgoing edges (guards relative to the region)"""
        outer = self.trace
        self.trace = []
        edges = []
        cur = guard
        ctx = rctx.with_bdd(guard)
        try:
            insts = fr.fn.blocks[b].insts
            for ins in insts:
                op = ins.op
                if op == "phi":
                    continue
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Unsupported("step limit")
                if op in ("call", "invoke"):
                    g = self.exec_call(fr, ins, st, ctx)
                    if g is FALSE:
                        return edges
                    if g is not TRUE:
                        outer.append(("g", cur, self.trace))
                        self.trace = []
                        cur = b_and(cur, g)
                        if cur is FALSE:
                            return edges
                        ctx = rctx.with_bdd(cur)
                        if ctx.dead:
                            return edges
                    if op == "invoke":
                        edges.append(Edge(b, ins.extra["normal"], cur, st, self.phi_vals(fr, b, ins.extra["normal"])))
                elif op == "br":
                    if len(ins.args) == 1:
                        edges.append(Edge(b, ins.args[0], cur, st, self.phi_vals(fr, b, ins.args[0])))
                    else:
                        c = self.as_bdd(self.val(fr, Ty("int", 1), ins.args[0]), ctx)
                        c = ctx.bdd_value(c)
                        t, f = ins.args[1], ins.args[2]
                        if t == f:
                            edges.append(Edge(b, t, cur, st, self.phi_vals(fr, b, t)))
                            continue
                        if c is not FALSE:
                            edges.append(Edge(b, t, b_and(cur, c), st if c is TRUE else st.copy(), self.phi_vals(fr, b, t), self.loc(ins)))
                        if c is not TRUE:
                            edges.append(Edge(b, f, b_and(cur, b_not(c)), st, self.phi_vals(fr, b, f), self.loc(ins)))
                elif op == "ret":
                    v = self.val(fr, ins.ty, ins.args[0]) if ins.args else None
                    fr.rets.append((cur, v, st))
                elif op == "unreachable":
                    pass
                elif op == "switch":
                    raise Unsupported("switch")
                elif op == "store":
                    v = self.val(fr, ins.ty, ins.args[0])
                    p = self.val(fr, Ty("ptr"), ins.args[1])
                    self.store(st, p, v, ins.ty, ctx, self.loc(ins))
                elif op == "load":
                    p = self.val(fr, Ty("ptr"), ins.args[0])
                    fr.env[ins.name] = self.load(st, p, ins.ty, ctx, self.loc(ins))
                else:
                    fr.env[ins.name] = self.exec_inst(fr, ins, st, ctx)
            return edges
        finally:
            if self.trace:
                outer.append(("g", cur, self.trace))
            self.trace = outer

    # -------------------------------------------------------------- instructions
    def exec_inst(self, fr, ins, st, ctx):
        op = ins.op
        ty = ins.ty
        V = lambda k, t=None: self.val(fr, t or ty, ins.args[k])
        if op in ("add", "sub", "mul"):
            if ty.k == "int" and ty.a == 1:
                a, b = self.as_bdd(V(0), ctx), self.as_bdd(V(1), ctx)
                return b_and(a, b) if op == "mul" else b_ite(a, b_not(b), b)
            a, b = self.as_poly(V(0)), self.as_poly(V(1))
            return a + b if op == "add" else a - b if op == "sub" else a * b
        if op in ("sdiv", "srem"):
            n = ty.a
            a, b = ctx.simp(S(n, self.as_poly(V(0)))), ctx.simp(S(n, self.as_poly(V(1))))
            self.trace.append(("div", b, ctx, self.loc(ins)))
            r = div(a, b) if op == "sdiv" else rem(a, b)
            return ctx.simp(r)
        if op in ("udiv", "urem"):
            n = ty.a
            a, b = ctx.simp(U(n, self.as_poly(V(0)))), ctx.simp(U(n, self.as_poly(V(1))))
            self.trace.append(("div", b, ctx, self.loc(ins)))
            r = div(a, b) if op == "udiv" else rem(a, b)
            return ctx.simp(r)
        if op in ("and", "or", "xor"):
            a, b = V(0), V(1)
            if ty.a == 1:
                a, b = self.as_bdd(a, ctx), self.as_bdd(b, ctx)
                return b_and(a, b) if op == "and" else b_or(a, b) if op == "or" else b_ite(a, b_not(b), b)
            a, b = self.as_poly(a), self.as_poly(b)
            ca, cb = a.const(), b.const()
            if ca is not None and cb is not None:
                m = (1 << ty.a) - 1
                x, y = int(ca) & m, int(cb) & m
                return P(x & y if op == "and" else x | y if op == "or" else x ^ y)
            if ca is not None:
                a, b, ca, cb = b, a, cb, ca
            if op == "xor" and cb == -1:
                return -a - 1
            ba, bb = poly_bdd(ctx.simp(a)), poly_bdd(ctx.simp(b))
            if ba is not None and bb is not None:
                r = b_and(ba, bb) if op == "and" else b_or(ba, bb) if op == "or" else b_ite(ba, b_not(bb), bb)
                return b_poly(r)
            if op == "and" and cb is not None:
                m = int(cb) & ((1 << ty.a) - 1)
                if m & (m + 1) == 0:
                    return ctx.simp(U(m.bit_length(), a))
            if op in ("or", "xor") and cb == 0:
                return a
            if cb is None and a.id_() > b.id_() if hasattr(a, "id_") else False:
                a, b = b, a
            return app("%s%d" % (op, ty.a), ctx.simp(U(ty.a, a)), ctx.simp(U(ty.a, b)), isint=True)
        if op == "shl":
            a, b = self.as_poly(V(0)), self.as_poly(V(1))
            if b.const() is not None:
                return a * (1 << int(b.const()))
            return app("shl%d" % ty.a, a, b, isint=True)
        if op in ("lshr", "ashr"):
            a, b = self.as_poly(V(0)), ctx.simp(self.as_poly(V(1)))
            if b.const() is not None:
                k = 1 << int(b.const())
                if op == "lshr":
                    return ctx.simp(div(ctx.simp(U(ty.a, a)), P(k)))
                a = ctx.simp(S(ty.a, a))
                if ctx.entails(a):
                    return ctx.simp(div(a, P(k)))
                # floor division
                c = ge0(a)
                return ite(c, div(a, P(k)), -div(-a - 1, P(k)) - 1)
            return app("%s%d" % (op, ty.a), a, b, isint=True)
        if op == "icmp":
            return self.icmp(ins.extra["pred"], ty, V(0), V(1), ctx)
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            a, b = self.as_poly(V(0)), self.as_poly(V(1))
            if op == "fadd":
                return a + b
            if op == "fsub":
                return a - b
            if op == "fmul":
                return a * b
            if op == "fdiv":
                self.trace.append(("fdiv", b, ctx, self.loc(ins)))
                return a * inv(b)
            return app("frem", a, b)
        if op == "fneg":
            return -self.as_poly(V(0))
        if op == "fcmp":
            a, b = self.as_poly(V(0)), self.as_poly(V(1))
            return self.fcmp(ins.extra["pred"], ctx.simp(a), ctx.simp(b))
        if op == "zext":
            f = ins.extra["from"]
            v = self.val(fr, f, ins.args[0])
            if f.a == 1:
                return b_poly(self.as_bdd(v, ctx))
            return ctx.simp(U(f.a, ctx.simp(self.as_poly(v))))
        if op == "sext":
            f = ins.extra["from"]
            v = self.val(fr, f, ins.args[0])
            if f.a == 1:
                return -b_poly(self.as_bdd(v, ctx))
            return ctx.simp(S(f.a, ctx.simp(self.as_poly(v))))
        if op == "trunc":
            f = ins.extra["from"]
            v = self.val(fr, f, ins.args[0])
            if ty.a == 1:
                return self.as_bdd(v, ctx)
            p = self.as_poly(v)
            return p
        if op in ("fptosi", "fptoui"):
            v = self.val(fr, ins.extra["from"], ins.args[0])
            return ctx.simp(ftoi(ty.a, op == "fptosi", ctx.simp(self.as_poly(v))))
        if op in ("sitofp", "uitofp"):
            f = ins.extra["from"]
            v = self.val(fr, f, ins.args[0])
            if f.a == 1:
                return b_poly(self.as_bdd(v, ctx))
            p = self.as_poly(v)
            return ctx.simp((S if op == "sitofp" else U)(f.a, ctx.simp(p)))
        if op in ("fpext", "fptrunc", "bitcast", "freeze"):
            return self.val(fr, ins.extra.get("from", ty), ins.args[0])
        if op == "ptrtoint":
            return self.as_poly(self.val(fr, Ty("ptr"), ins.args[0]))
        if op == "inttoptr":
            p = self.as_poly(self.val(fr, ins.extra["from"], ins.args[0]))
            for m, c in p.items:
                if len(m) == 1 and c == 1 and m[0].kind == "sym" and m[0].args[0].startswith("addr:"):
                    return mkptr(m[0].args[0][5:], p - P(m[0]))
            return self.fresh_of("inttoptr", Ty("ptr"))
        if op == "select":
            c = ctx.bdd_value(self.as_bdd(self.val(fr, Ty("int", 1), ins.args[0]), ctx))
            a, b = self.val(fr, ty, ins.args[1]), self.val(fr, ty, ins.args[2])
            return self.ite_val(c, a, b)
        if op == "getelementptr":
            return self.gep(fr, ins, ctx)
        if op == "alloca":
            name = "%s/%s" % (fr.path, ins.name)
            rt = self.lay.resolve(ty)
            if ins.args:
                n = self.as_poly(self.val(fr, ins.args[0][0], ins.args[0][1]))
                n = ctx.simp(n)
                if n.const() == 1:
                    self.mk_stack(name, rt, None, fr, st)
                else:
                    self.mk_stack(name, rt, n, fr, st)
                self.trace.append(("alloca", name, n, ctx, self.loc(ins)))
            else:
                self.mk_stack(name, rt, None, fr, st)
            return mkptr(name)
        if op == "extractvalue":
            v = self.val(fr, ty, ins.args[0])
            if isinstance(v, tuple):
                for k in ins.args[1:]:
                    v = v[int(k)]
                return v
            return UNDEF
        if op == "insertvalue":
            return UNDEF
        raise Unsupported("instruction %s" % ins.text)

    def mk_stack(self, name, rt, n, fr, st):
        if rt.k == "array" and rt.a[1].k in ("int", "float") and n is None:
            e = rt.a[1]
            self.root(name, "array", esz=self.lay.size(e), ety=self.scalar_desc(e), length=P(rt.a[0]), origin="stack")
        elif n is not None:
            self.root(name, "array", esz=self.lay.size(rt), ety=self.scalar_desc(rt), length=n, origin="stack")
        else:
            self.root(name, "cells", origin="stack")
        for k in [k for k in st.cells if k[0] == name]:
            del st.cells[k]
        st.arrs.pop(name, None)
        fr.allocas.append(name)

    def icmp(self, pred, ty, a, b, ctx):
        if isinstance(a, Ptr) or isinstance(b, Ptr) or ty.k == "ptr":
            return self.ptrcmp(pred, a, b, ctx)
        if ty.a == 1:
            a, b = self.as_bdd(a, ctx), self.as_bdd(b, ctx)
            x = b_ite(a, b_not(b), b)
            if pred == "ne":
                return x
            if pred == "eq":
                return b_not(x)
            a, b = b_poly(a), b_poly(b)
        a, b = self.as_poly(a), self.as_poly(b)
        n = ty.a
        if b.const() == 0 and pred in ("eq", "ne", "ugt") or a.const() == 0 and pred in ("eq", "ne", "ult"):
            parts = or_parts(a if b.const() == 0 else b, n)
            if parts is not None:
                # a|b is zero exactly when both are
                c = TRUE
                for x in parts:
                    c = b_and(c, eq0(ctx.simp(x)))
                return c if pred == "eq" else b_not(c)
        if pred in ("eq", "ne"):
            d = ctx.simp(a - b)
            c = None
            if d.const() is None:
                # compare representatives
                da = ctx.simp(S(n, d)) if n < 32 else None
                if n < 32:
                    ua, ub = ctx.simp(U(n, a)), ctx.simp(U(n, b))
                    if ua is not a or ub is not b or n < 32:
                        sa, sb = ctx.simp(S(n, a)), ctx.simp(S(n, b))
                        # prefer the representation that strips
                        d1, d2 = ua - ub, sa - sb
                        d = d1 if self.wrapcount(d1) <= self.wrapcount(d2) else d2
                c = eq0(d)
            else:
                c = TRUE if int(d.const()) % (1 << n) == 0 else FALSE
            return c if pred == "eq" else b_not(c)
        f = S if pred[0] == "s" else U
        a, b = ctx.simp(f(n, ctx.simp(a))), ctx.simp(f(n, ctx.simp(b)))
        k = pred[1:]
        if k == "lt":
            return lt(a, b)
        if k == "le":
            return le(a, b)
        if k == "gt":
            return lt(b, a)
        return le(b, a)

    def wrapcount(self, p):
        return sum(1 for m, c in p.items for a in m if a.kind in ("U", "S"))

    def fcmp(self, pred, a, b):
        k = pred[1:]
        if pred == "true":
            return TRUE
        if pred == "false":
            return FALSE
        if k == "rd":   # ord
            return TRUE
        if k == "no":   # uno
            return FALSE
        d = a - b

        def gt(p):
            return (ge0(p - 1) if p.isint else gt0r(p))

        if k == "gt":
            return gt(d)
        if k == "lt":
            return gt(-d)
        if k == "ge":
            return b_not(gt(-d))
        if k == "le":
            return b_not(gt(d))
        if k == "eq":
            return eq0(d)
        if k == "ne":
            return b_not(eq0(d))
        raise Unsupported("fcmp " + pred)

    def ptrcmp(self, pred, a, b, ctx):
        if not isinstance(a, Ptr) or not isinstance(b, Ptr):
            return b_lit(mk("ind", "eq", P(fresh("ptrcmp"))))
        res = FALSE
        for g1, r1, o1 in a.alts:
            for g2, r2, o2 in b.alts:
                g = b_and(g1, g2)
                if g is FALSE:
                    continue
                if r1 == r2:
                    d = ctx.simp(o1 - o2)
                    if pred in ("eq", "ne"):
                        c = eq0(d)
                    elif pred == "ult":
                        c = ge0(-d - 1)
                    elif pred == "ule":
                        c = ge0(-d)
                    elif pred == "ugt":
                        c = ge0(d - 1)
                    else:
                        c = ge0(d)
                elif pred in ("eq", "ne"):
                    k1 = self.roots[r1].kind if r1 else "null"
                    k2 = self.roots[r2].kind if r2 else "null"
                    if "opaque" in (k1, k2):
                        c = b_lit(mk("ind", "eq", sym("ptreq:%s:%s" % tuple(sorted((str(r1), str(r2)))))))
                    else:
                        c = FALSE
                else:
                    c = b_lit(mk("ind", "eq", P(fresh("ptrcmp"))))
                if pred == "ne":
                    c = b_not(c)
                res = b_or(res, b_and(g, c))
        return res

    def gep(self, fr, ins, ctx):
        (_, bs) = ins.args[0]
        p = self.val(fr, Ty("ptr"), bs)
        t = ins.ty
        off = ZERO
        first_ = True
        for (it, s) in ins.args[1:]:
            v = self.as_poly(self.val(fr, it, s))
            if it.k == "int" and it.a < 64 and v.const() is None:
                v = ctx.simp(S(it.a, v))
            if first_:
                off = off + v * self.lay.size(t)
                first_ = False
                continue
            t = self.lay.resolve(t)
            if t.k == "struct":
                k = int(v.const())
                off = off + self.lay.struct(t)[0][k]
                t = t.a[0][k]
            else:
                t = t.a[1]
                off = off + v * self.lay.size(t)
        if not isinstance(p, Ptr):
            return p
        if off is ZERO:
            return p
        return Ptr(tuple((g, r, o + off) for g, r, o in p.alts))

    # -------------------------------------------------------------- call instruction
    def exec_call(self, fr, ins, st, ctx):
        """executes; stores the result in env; -> guard under which it returns"""
        cal = ins.extra["callee"]
        loc = self.loc(ins)
        if cal.startswith("@llvm.dbg") or cal.startswith("@llvm.lifetime") or cal.startswith("@llvm.stack"):
            if ins.name:
                fr.env[ins.name] = UNDEF
            return TRUE
        name = None
        if cal.startswith("@"):
            name = cal[1:]
        elif cal.startswith("%"):
            p = self.val(fr, Ty("ptr"), cal)
            if isinstance(p, Ptr) and p.single():
                r = p.single()[0]
                if r is not None and self.roots[r].kind == "fn":
                    name = r
                elif r is not None and self.roots[r].kind == "vslot":
                    args = [self.val(fr, t, v) for t, v, at in ins.args]
                    h = self.hooks.get("vcall")
                    if h is None:
                        raise Unsupported("virtual call")
                    ret = h(self, self.roots[r], args, st, ctx, loc, ins.ty)
                    if ins.name:
                        fr.env[ins.name] = ret
                    return TRUE
        if name is None:
            self.unknown_call("through a pointer", [self.val(fr, t, v) for t, v, at in ins.args if t.k != "metadata"], st, loc)
            if ins.name:
                fr.env[ins.name] = self.fresh_of("icall", ins.ty)
            return TRUE
        args = []
        for t, v, at in ins.args:
            if t.k == "metadata":
                args.append(None)
            else:
                args.append(self.val(fr, t, v))
        h = self.hooks.get(("fn", name))
        if h is not None:
            r = h(self, args, st, ctx, loc, ins)
            if isinstance(r, tuple) and len(r) == 2 and r[0] == "guard":
                return r[1]
            if ins.name:
                fr.env[ins.name] = r
            return TRUE
        fn = self.mod.functions.get(name)
        if fn is not None and not self.opaque_fn(name):
            self.calls += 1
            # byval copies are not used by this code base; sret passes a pointer
            ret, out, g = self.call_function(fn, args, st, ctx, "%s>%s" % (fr.path, ins.name or "c%d" % ins.block.insts.index(ins)
                                                                          + ins.block.name))
            st.cells, st.arrs, st.freed = out.cells, out.arrs, out.freed
            if ins.name:
                fr.env[ins.name] = ret if ret is not None else UNDEF
            return g
        ret = self.builtin(name, args, st, ctx, loc, ins, fr)
        if ret is FALSE and ins.name is None:
            return FALSE
        if ins.name:
            fr.env[ins.name] = ret
        return TRUE

    def opaque_fn(self, name):
        return name.startswith("_ZNSt7__cxx1112basic_string") or name.startswith("_ZStpl") or name.startswith("_ZNSt9exception")

    def builtin(self, name, args, st, ctx, loc, ins, fr):
        if name in ("_Znwm", "_Znam", "malloc"):
            rn = "heap:%s/%s" % (fr.path, ins.name)
            n = ctx.simp(self.as_poly(args[0]))
            if name == "_Znwm":
                self.root(rn, "cells", origin="heap", heap=name, length=n, loc=loc)
            else:
                rr = self.root(rn, "array", origin="heap", heap=name, info=n, loc=loc)
                m = re.search(r"!heapallocsite !(\d+)", ins.text)
                sc = self.dbg.scalar(int(m.group(1))) if m and self.dbg else None
                if sc:
                    rr.esz, rr.ety = sc[1] // 8, sc
                    rr.length = exact_div(n, P(rr.esz))
                st.arrs[rn] = mkarr("undef", rn)
            for k in [k for k in st.cells if k[0] == rn]:
                del st.cells[k]
            self.trace.append(("alloc", rn, n, ctx, loc))
            return mkptr(rn)
        if name in ("_ZdlPv", "_ZdaPv", "free", "_ZdlPvm", "_ZdaPvm"):
            p = args[0]
            self.trace.append(("free", p, name, ctx, loc))
            return UNDEF
        if name.startswith("llvm.memset"):
            self.memset(st, args[0], self.as_poly(args[1]), ctx.simp(self.as_poly(args[2])), ctx, loc)
            return UNDEF
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            self.memcpy(st, args[0], args[1], ctx.simp(self.as_poly(args[2])), ctx, loc)
            return UNDEF
        m = re.match(r"llvm\.([us])(add|sub|mul)\.with\.overflow\.i(\d+)", name)
        if m:
            a, b = self.as_poly(args[0]), self.as_poly(args[1])
            r = a + b if m.group(2) == "add" else a - b if m.group(2) == "sub" else a * b
            return (r, FALSE)
        m = re.match(r"llvm\.(fmuladd|fma)\.f\d+", name)
        if m:
            return self.as_poly(args[0]) * self.as_poly(args[1]) + self.as_poly(args[2])
        m = re.match(r"llvm\.(smin|smax|umin|umax)\.i(\d+)", name)
        if m:
            f = S if m.group(1)[0] == "s" else U
            n = int(m.group(2))
            a, b = ctx.simp(f(n, self.as_poly(args[0]))), ctx.simp(f(n, self.as_poly(args[1])))
            c = ctx.bdd_value(le(a, b))
            return ite(c, a, b) if m.group(1).endswith("min") else ite(c, b, a)
        m = re.match(r"(?:llvm\.)?(f?abs|sqrt|exp|log|pow|floor|ceil|round|sin|cos|tan|fmin|fmax|trunc|rint|lround|minnum|maxnum)(f|l)?(?:\.[fi]\d+.*)?$", name)
        if m:
            fn = m.group(1)
            A = [ctx.simp(self.as_poly(a)) for a in args if isinstance(a, (Poly, BDD))]
            if fn in ("fabs", "abs"):
                x = A[0]
                if fn == "abs":
                    x = ctx.simp(S(32, x))
                c = ge0(x) if x.isint else b_not(gt0r(-x))
                return ite(ctx.bdd_value(c), x, -x)
            if fn in ("fmax", "maxnum", "fmin", "minnum"):
                d = A[0] - A[1]
                c = ge0(d) if d.isint else b_not(gt0r(-d))
                return ite(c, A[0], A[1]) if "max" in fn else ite(c, A[1], A[0])
            if fn in ("round", "floor", "ceil", "rint", "trunc") and A[0].isint:
                return A[0]
            return app(fn, *A)
        if name in ("__cxa_throw", "__cxa_rethrow", "_ZSt9terminatev", "abort", "__cxa_bad_cast", "__cxa_throw_bad_array_new_length"):
            self.trace.append(("throw", name, TRUE, ctx, loc, fr.fn.name))
            return FALSE
        if "__throw_" in name:
            self.trace.append(("throw", name, TRUE, ctx, loc, fr.fn.name))
            return FALSE
        self.trace.append(("extern", name, loc))
        self.unknown_call(name, args, st, loc)
        if ins.ty is None or ins.ty.k == "void":
            return UNDEF
        return self.fresh_of("ext:" + name, ins.ty)

    def elem_index(self, r, off, ctx):
        idx = exact_div(off, P(r.esz))
        return None if idx is None else ctx.simp(idx)

    def memset(self, st, p, v, n, ctx, loc, gd=TRUE):
        if isinstance(p, Ptr) and p.single() is None:
            for g, root, off in p.alts:
                c = ctx if g is TRUE else ctx.with_bdd(g)
                if not c.dead:
                    self.memset(st, mkptr(root, off) if root is not None else NULL, v, n, c, loc, g if gd is TRUE else b_and(g, gd))
            return
        if not isinstance(p, Ptr):
            if n is not ZERO:
                self.note("memset through unknown pointer", loc)
                self.havoc_all(st)
            return
        root, off = p.single()
        if root is None:
            if not ctx.entails(-n):
                self.trace.append(("null", TRUE, loc))
            return
        r = self.roots[root]
        v = ctx.simp(U(8, v))
        if r.kind == "cells":
            k0, k1 = ctx.simp(off).const(), n.const()
            if k0 is None or k1 is None:
                self.note("memset of symbolic struct range", loc)
                return
            for k in [k for k in st.cells if k[0] == root and k0 <= k[1] < k0 + k1]:
                st.cells[k] = ZERO if not isinstance(st.cells[k], Ptr) else NULL
            st.cells[(root, k0)] = st.cells.get((root, k0), ZERO)
            return
        if r.kind != "array":
            self.note("memset on %r" % r, loc)
            return
        if r.esz is None:
            r.esz, r.ety = self.guess_elem(r, n)
        i0 = self.elem_index(r, ctx.simp(off), ctx)
        cnt = exact_div(n, P(r.esz))
        if cnt is None and n.atom() is None or i0 is None:
            cnt = None
        if cnt is None:
            # byte count not a multiple: covers floor(n/esz) elements
            cnt = ctx.simp(div(n, P(r.esz)))
            self.trace.append(("bytes", root, n, ctx, loc))
        if i0 is None:
            self.havoc_arr(st, root)
            self.note("memset at unaligned offset", loc)
            return
        if r.esz == 1:
            val = v
        elif v is ZERO:
            val = ZERO
        elif r.ety[0] == "f":
            val = app("bytes%d" % r.esz, v)
        else:
            val = v * sum(1 << (8 * k) for k in range(r.esz))
        self.range_effect(st, root, i0, cnt, lambda k: val, ctx, loc, gd)

    def guess_elem(self, r, n):
        return self.hooks.get("elem", lambda ev, r, n: (1, ("u", 8)))(self, r, n)

    def range_effect(self, st, root, i0, cnt, f, ctx, loc, gd=TRUE):
        kv = T.mk("sym", "k@%d" % (loc[1] if loc else 0))
        kv = T.mk("sym", "k@%s:%s" % (loc if loc else ("?", 0)))
        c = ctx.child()
        c.add_ge(P(kv))
        c.add_ge(cnt - 1 - P(kv))
        self.trace.append(("loop", kv, cnt, [("st", root, i0 + P(kv), c, loc, gd)]))
        val = f(P(kv), c)if f.__code__.co_argcount == 2 else f(P(kv))
        node = mknode("loop", kv, cnt, (mknode("st", gd, i0 + P(kv), val, loc),))
        st.arrs[root] = mkarr("st", root, self.get_arr(st, root), node)

    def memcpy(self, st, d, s, n, ctx, loc, gd=TRUE):
        if isinstance(d, Ptr) and isinstance(s, Ptr) and (d.single() is None or s.single() is None):
            for g, dr, do in d.alts:
                for h, sr, so in s.alts:
                    gg = b_and(g, h)
                    c = ctx if gg is TRUE else ctx.with_bdd(gg)
                    if not c.dead and gg is not FALSE:
                        self.memcpy(st, mkptr(dr, do) if dr is not None else NULL, mkptr(sr, so) if sr is not None else NULL, n, c, loc,
                                    gg if gd is TRUE else b_and(gg, gd))
            return
        if not isinstance(d, Ptr) or not isinstance(s, Ptr):
            if n is not ZERO:
                self.note("memcpy through unknown pointer", loc)
                if isinstance(d, Ptr):
                    for g, dr, do in d.alts:
                        if dr is not None and self.roots[dr].kind == "array":
                            self.havoc_arr(st, dr)
                        else:
                            for k in [k for k in st.cells if k[0] == dr]:
                                st.cells[k] = UNDEF
                else:
                    self.havoc_all(st)
            return
        (dr, do), (sr, so) = d.single(), s.single()
        if dr is None or sr is None:
            return
        rd, rs = self.roots[dr], self.roots[sr]
        if rd.kind == "cells" and rs.kind == "cells":
            k0, s0, k1 = ctx.simp(do).const(), ctx.simp(so).const(), n.const()
            if None in (k0, s0, k1):
                self.note("memcpy of symbolic struct range", loc)
                return
            for k in [k for k in st.cells if k[0] == dr and k0 <= k[1] < k0 + k1]:
                del st.cells[k]
            for k, v in list(st.cells.items()):
                if k[0] == sr and s0 <= k[1] < s0 + k1:
                    st.cells[(dr, k[1] - s0 + k0)] = v if gd is TRUE else UNDEF
            return
        if rd.kind != "array" or rs.kind != "array":
            self.note("memcpy between %r and %r" % (rd, rs), loc)
            if rd.kind == "array":
                self.havoc_arr(st, dr)
            return
        if rd.esz is None and rs.esz is not None:
            rd.esz, rd.ety = rs.esz, rs.ety
        if rs.esz is None and rd.esz is not None:
            rs.esz, rs.ety = rd.esz, rd.ety
        if rd.esz is None or rd.esz != rs.esz:
            self.note("memcpy with different element sizes", loc)
            self.havoc_arr(st, dr)
            return
        i0, j0 = self.elem_index(rd, ctx.simp(do), ctx), self.elem_index(rs, ctx.simp(so), ctx)
        cnt = exact_div(n, P(rd.esz))
        if cnt is None:
            cnt = ctx.simp(div(n, P(rd.esz)))
        if i0 is None or j0 is None:
            self.havoc_arr(st, dr)
            self.note("memcpy unaligned", loc)
            return
        src = self.get_arr(st, sr)
        isint = rs.ety[0] != "f"

        def f(k, c):
            if isinstance(rs.info, tuple) and rs.info[0] == "const":
                return T.read(src, j0 + k, rs.ety, isint)
            return arrays.resolve_read(src, j0 + k, rs.ety, isint, c)
        kv = T.mk("sym", "k@%s:%s" % (loc if loc else ("?", 0)))
        c = ctx.child()
        c.add_ge(P(kv))
        c.add_ge(cnt - 1 - P(kv))
        self.trace.append(("loop", kv, cnt, [("ld", sr, j0 + P(kv), c, loc, gd)]))
        self.range_effect(st, dr, i0, cnt, f, ctx, loc, gd)

    # -------------------------------------------------------------- loops
    def loop_phi_step(self, fr, L, ins):
        """syntactic affine step: -> ('int', operand, sign, ty) | ('ptr', gep inst) | None"""
        nxt = None
        for v, b in ins.args:
            if b in L.blocks:
                nxt = v
        defs = self.defs(fr.fn)
        seen = 0
        d = defs.get(nxt)
        while d is not None and d.op == "phi" and len(d.args) == 1 and seen < 5:
            d = defs.get(d.args[0][0])
            seen += 1
        if d is None or d.block.name not in L.blocks:
            return None

        def inv_(s):
            if not s.startswith("%"):
                return True
            x = defs.get(s)
            return x is None or x.block.name not in L.blocks
        if d.op in ("add", "sub") and ins.ty.k == "int" and ins.ty.a > 1:
            a, b = d.args
            if a == ins.name and inv_(b):
                return ("int", b, 1 if d.op == "add" else -1, d.ty)
            if b == ins.name and inv_(a) and d.op == "add":
                return ("int", a, 1, d.ty)
        if d.op == "getelementptr" and len(d.args) == 2 and d.args[0][1] == ins.name and inv_(d.args[1][1]):
            return ("ptr", d)
        return None

    def defs(self, fn):
        d = getattr(fn, "_defs", None)
        if d is None:
            d = {}
            for b in fn.order:
                for i in b.insts:
                    if i.name:
                        d[i.name] = i
            fn._defs = d
        return d

    def run_loop(self, fr, L, edges, rctx):
        self.ldepth += 1
        try:
            return self.run_loop_(fr, L, edges, rctx)
        finally:
            self.ldepth -= 1

    def run_loop_(self, fr, L, edges, rctx):
        self.loops += 1
        g, st0 = self.merge_states(edges)
        octx = rctx.with_bdd(g)
        if octx.dead:
            return []
        fn = fr.fn
        hdr = fn.blocks[L.header]
        i = T.mk("sym", "i%d" % self.ldepth)
        ip = P(i)
        phis = [x for x in hdr.insts if x.op == "phi"]
        init = {}
        for p in phis:
            init[p.name] = self.merge_vals([(e.guard, e.phis[p.name]) for e in edges])
            v = init[p.name]
            if isinstance(v, Poly):
                init[p.name] = octx.simp(v)
        sols, syms = {}, {}
        for p in phis:
            s = self.loop_phi_step(fr, L, p)
            iv = init[p.name]
            if s is None:
                continue
            if s[0] == "int" and isinstance(iv, Poly):
                step = octx.simp(self.as_poly(self.val(fr, s[3], s[1]))) * s[2]
                if p.ty.a >= 32:
                    c = step.const()
                    if c is not None and c >= 1 << (p.ty.a - 1):
                        step = P(c - (1 << p.ty.a))
                sols[p.name] = iv + step * ip
            elif s[0] == "ptr" and isinstance(iv, Ptr) and iv.alts:
                d = s[1]
                t, o = d.args[1]
                step = self.as_poly(self.val(fr, t, o)) * self.lay.size(d.ty)
                step = octx.simp(step)
                sols[p.name] = Ptr(tuple((pg, pr, po + step * ip) for pg, pr, po in iv.alts))
        cellsol, arrsol = {}, {}       # key -> value at iteration i; None while unsolved
        cellsym, arrsym = {}, {}
        isptr = {}
        key = (i,)
        if not hasattr(octx, "lctx"):
            pass
        lcs = octx.loopctx
        ictx = lcs.get(key)
        if ictx is None:
            ictx = octx.child()
            ictx.add_ge(ip)
            lcs[key] = ictx
        Xdw = None
        tr_outer = self.trace
        final = None
        folded = False
        opaque = False

        def fresh_state(name, v, ty=None, real=False):
            """symbolic unknown of the kind of v"""
            sn = "s%d:%s:%s" % (self.ldepth, L.header, name)
            if isinstance(v, Ptr):
                s = v.single()
                if s is None and v.alts and all(r is not None for g, r, o in v.alts):
                    a = T.mk("sym", sn)
                    return a, Ptr(tuple((g, r, o + P(a)) for g, r, o in v.alts))
                if s is None or s[0] is None:
                    return None, UNDEF
                a = T.mk("sym", sn)
                return a, mkptr(s[0], P(a) * self.ptr_unit(v))
            if isinstance(v, BDD):
                a = T.mk("sym", sn)
                return a, eq0(P(a) - 1)
            if isinstance(v, Poly):
                isint = v.isint and not real
                a = T.mk("sym", sn if isint else sn + ":r", isint=isint)
                return a, P(a)
            if v is UNDEF and ty is not None:
                if ty.k == "float":
                    a = T.mk("sym", sn, isint=False)
                    return a, P(a)
                if ty.k == "int" and ty.a > 1:
                    a = T.mk("sym", sn)
                    return a, P(a)
            return None, UNDEF

        floatphi = {p.name for p in phis if p.ty.k == "float"}
        for rnd in range(14):
            self.trace = []
            # ---- state at the start of iteration i
            for p in phis:
                if p.name in sols:
                    fr.env[p.name] = sols[p.name]
                else:
                    iv = init[p.name]
                    if p.name in floatphi and isinstance(iv, Poly):
                        a = T.mk("sym", "s%d:%s:%s" % (self.ldepth, L.header, p.name), isint=False)
                        v = P(a)
                    else:
                        a, v = fresh_state(p.name, iv, p.ty)
                    syms[p.name] = a
                    fr.env[p.name] = v
            st = st0.copy()
            for k in list(cellsym) + list(cellsol):
                if k in cellsol:
                    st.cells[k] = cellsol[k]
                else:
                    st.cells[k] = cellsym[k][1]
            for r in arrsym:
                st.arrs[r] = arrsol[r] if r in arrsol else mkarr("var", r, arrsym[r])
            start = st.copy()
            # ---- header
            hedges = self.exec_block(fr, L.header, TRUE, st, ictx)
            hexit = [e for e in hedges if e.dst not in L.blocks]
            hstay = [e for e in hedges if e.dst in L.blocks]
            htrace = self.trace
            self.trace = []
            X = None
            bctx = ictx
            stay = FALSE
            for e in hstay:
                stay = b_or(stay, e.guard)
            reach = TRUE
            if hexit and not hstay:
                # the header always exits: zero iterations
                X = ZERO
                stay = FALSE
            elif hexit:
                X = self.solve_trip(stay, i, ictx, octx)
                if X is not None:
                    kk = (i, X)
                    bctx = lcs.get(kk)
                    if bctx is None:
                        bctx = ictx.child()
                        bctx.add_ge(X - 1 - ip)
                        lcs[kk] = bctx
                    for e in hstay:
                        e.guard = TRUE if len(hstay) == 1 else b_constrain(e.guard, stay)
            elif Xdw is not None:
                kk = (i, "dw", Xdw)
                bctx = lcs.get(kk)
                if bctx is None:
                    bctx = ictx.child()
                    bctx.add_ge(Xdw - ip)
                    lcs[kk] = bctx
            latch, exits = [], []
            if hstay and not bctx.dead:
                pend = {}
                canret = analyse_cfg(fn)[3]
                for e in hstay:
                    if e.dst == L.header:
                        latch.append(e)
                    elif e.dst not in canret:
                        self.throw(fr, e.dst, e.guard, bctx.with_bdd(e.guard))
                    else:
                        pend.setdefault(e.dst, []).append(e)
                l2, exits = self.run_region(fr, L.blocks, L, pend, bctx)
                latch += l2
            btrace = self.trace
            # ---- do-while trip count
            newX = False
            if not hexit and len(exits) >= 1:
                c = FALSE
                for e in exits:
                    c = b_or(c, e.guard)
                Xn = self.solve_trip(b_not(c), i, ictx, octx)
                if Xn is not None and Xn is not Xdw:
                    Xdw = Xn
                    newX = True
            if not latch:
                final = (htrace, btrace, hexit, exits, X, bctx, TRUE)
                if not hexit:
                    Xdw = ZERO
                break
            lg, lst = self.merge_states(latch)
            nxt = {p.name: self.merge_vals([(e.guard, e.phis[p.name]) for e in latch]) for p in phis}
            changed = newX
            discovered = False
            # ---- newly written cells / arrays
            for k, v in lst.cells.items():
                if k in cellsym and k not in cellsol:
                    a = cellsym[k][0]
                    if a is not None and a.isint and isinstance(cellsym[k][1], Poly) and isinstance(v, Poly) and not v.isint:
                        cellsym[k] = fresh_state("c%s.%s" % k, st0.cells[k], real=True)
                        changed = discovered = True
                if k in cellsym or k in cellsol:
                    continue
                o = start.cells.get(k)
                if o is None:
                    # first touched inside the loop
                    o0 = st0.cells.get(k)
                    if o0 is None:
                        r = self.roots.get(k[0])
                        if r is not None and r.origin in ("stack", "heap"):
                            continue
                        o = self.field(k[0], k[1], None)
                        if o is None or o is v:
                            continue
                if o is v or (isinstance(o, Ptr) and isinstance(v, Ptr) and o.alts == v.alts):
                    continue
                if isinstance(o, Poly) and isinstance(v, Poly) and ictx.simp(v) is ictx.simp(o):
                    continue
                a, s = fresh_state("c%s.%s" % k, o, real=isinstance(v, Poly) and not v.isint)
                st0.cells[k] = o
                cellsym[k] = (a, s)
                changed = discovered = True
            for r, v in lst.arrs.items():
                if r in arrsym:
                    continue
                o = self.get_arr(start, r)
                if o is v:
                    continue
                rr = self.roots.get(r)
                if rr is not None and rr.origin in ("stack", "heap") and r not in st0.arrs and r not in start.arrs \
                        and r.startswith(("heap:" if rr.origin == "heap" else "")) and self.local_to(rr, r, fr, L):
                    continue
                arrsym[r] = T.mk("sym", "A%d:%s" % (self.ldepth, r))
                changed = discovered = True
            if discovered:
                continue        # this round assumed that they do not change
            # ---- solve
            prog = self.solve_states(phis, init, nxt, sols, syms, st0, lst, cellsol, cellsym, arrsol, arrsym, i, X if hexit else None,
                                     ictx, octx, bctx, fold_now=(not changed and folded))
            if prog:
                changed = True
            if not changed:
                unsolved = [p.name for p in phis if p.name not in sols] + [k for k in cellsym if k not in cellsol] + \
                           [r for r in arrsym if r not in arrsol]
                if unsolved and not folded:
                    folded = True
                    continue
                if unsolved:
                    self.note("unsolved loop state %s in %s/%s" % (unsolved[:4], fr.path[-60:], L.header))
                    opaque = True
                    # havoc what is left: every iteration sees an unknown value
                    for p in phis:
                        if p.name not in sols:
                            sols[p.name] = self.opaque_like(fr.env[p.name], i)
                    for k in cellsym:
                        if k not in cellsol:
                            cellsol[k] = self.opaque_like(cellsym[k][1], i)
                    for r in arrsym:
                        if r not in arrsol:
                            T._fresh[0] += 1
                            arrsol[r] = mkarr("var", r, T.mk("sym", "havoc#%d" % T._fresh[0]))
                    continue
                final = (htrace, btrace, hexit, exits, X, bctx, lg)
                break
        if final is None:
            raise Unsupported("loop %s in %s did not stabilise" % (L.header, fn.name))
        htrace, btrace, hexit, exits, X, bctx, lg = final
        self.trace = tr_outer
        # ---- exits
        out = []
        exc = FALSE
        for e in exits:
            exc = b_or(exc, e.guard)
        XX = None
        if hexit:
            if X is None:
                X = P(fresh("trip"))
                self.note("trip count of loop at %s not found" % (self.loc(hdr.insts[-1]),))
                c = octx
                unk = True
            XX = X
            if exits:
                XX = T.first(i, X, b_poly(bctx.bdd_value(exc)))
        else:
            if Xdw is None:
                Xdw = P(fresh("trip"))
                self.note("trip count of loop at %s not found" % (self.loc(hdr.insts[-1]),))
            XX = Xdw
        XX = octx.simp(XX)
        sb = T.Sub({i: XX})
        if not exits:
            self.emit_loop(i, XX + 1 if not hexit else XX + 1, htrace, g)
            self.emit_loop(i, XX, btrace, g)
        else:
            n = (X if hexit else XX) + 1
            self.trace.append(("g", g, [("approxloop" if hexit else "loop", i, n, htrace + btrace)]))
        survive = TRUE
        full = b_or(lg, exc) if hexit or exits else lg
        if full is not TRUE and bctx.bdd_value(full) is not TRUE and not self.always(full, bctx):
            N = XX
            survive = eq0(octx.simp(T.ssum(i, N, ONE - b_poly(full))))
        if hexit:
            for e in hexit:
                gg = TRUE
                if len(hexit) > 1:
                    gg = sb.bdd(e.guard)
                if exits:
                    gg = b_and(gg, eq0(X - XX))
                out.append(self.exit_edge(e, sb, b_and(g, b_and(gg, survive)), octx))
        for e in exits:
            # by definition the exit condition holds at the first iteration that exits
            gg = TRUE if len(exits) == 1 else sb.bdd(e.guard)
            if hexit:
                gg = b_and(gg, b_not(eq0(X - XX)))
            out.append(self.exit_edge(e, sb, b_and(g, b_and(gg, survive)), octx))
        return [e for e in out if e.guard is not FALSE]

    def ptr_unit(self, v):
        """element size when the pointer is element aligned in an array root"""
        s = v.single()
        if s is None or s[0] is None:
            return 1
        r = self.roots.get(s[0])
        if r is None or r.kind != "array" or not r.esz or r.esz == 1:
            return 1
        return r.esz if exact_div(s[1], P(r.esz)) is not None else 1

    def local_to(self, rr, name, fr, L):
        """root created by code inside the loop (so its content does not survive an iteration)"""
        p = name[5:] if name.startswith("heap:") else name
        if not p.startswith(fr.path):
            return False
        rest = p[len(fr.path):]
        if rest.startswith("/"):
            d = self.defs(fr.fn).get(rest[1:])
            return d is not None and d.block.name in L.blocks
        if rest.startswith(">"):
            return True
        return False

    def emit_loop(self, i, N, tr, g):
        if tr:
            self.trace.append(("g", g, [("loop", i, N, tr)]))

    def opaque_like(self, v, i):
        T._fresh[0] += 1
        n = "opq#%d" % T._fresh[0]
        if isinstance(v, Ptr):
            s = v.single()
            return mkptr(s[0], app(n, P(i), isint=True)) if s else UNDEF
        if isinstance(v, BDD):
            return eq0(app(n, P(i), isint=True))
        if isinstance(v, Poly):
            return app(n, P(i), isint=v.isint)
        return UNDEF

    def exit_edge(self, e, sb, guard, octx):
        st = e.state.copy()
        for k, v in st.cells.items():
            st.cells[k] = self.sub_val(sb, v, octx)
        for k, v in st.arrs.items():
            st.arrs[k] = sb.arr(v)
        ph = {n: self.sub_val(sb, v, octx) for n, v in e.phis.items()}
        return Edge(e.src, e.dst, guard, st, ph, e.loc)

    def sub_val(self, sb, v, ctx=None):
        if isinstance(v, Poly):
            r = sb.poly(v)
            return ctx.simp(r) if ctx is not None and r is not v else r
        if isinstance(v, BDD):
            return sb.bdd(v)
        if isinstance(v, Ptr):
            alts = []
            for g, r, o in v.alts:
                o2 = sb.poly(o)
                if ctx is not None and o2 is not o:
                    o2 = ctx.simp(o2)
                g2 = sb.bdd(g)
                if g2 is not FALSE:
                    alts.append((g2, r, o2))
            return Ptr(tuple(alts)) if alts else UNDEF
        if isinstance(v, tuple):
            return tuple(self.sub_val(sb, x, ctx) for x in v)
        return v

    def solve_trip(self, stay, i, ictx, octx):
        """number of iterations while stay(i) holds (monotone conditions)"""
        if stay is FALSE:
            return ZERO
        lits = b_literals(stay)
        conj = TRUE
        for a, pol in lits:
            conj = b_and(conj, b_lit(a, pol))
        if conj is not stay:
            return None
        res = None
        pre = TRUE
        for a, pol in lits:
            if i not in a.fv:
                pre = b_and(pre, b_lit(a, pol))
                continue
            t = self.solve_lit(a, pol, i, ictx, octx)
            if t is None:
                return None
            if res is None:
                res = t
            else:
                c = octx.bdd_value(le(res, t))
                res = ite(c, res, t)
        if res is None:
            return None
        pre = octx.bdd_value(pre)
        if pre is not TRUE:
            res = ite(pre, res, ZERO)
        return octx.simp(res)

    def solve_ge(self, p, i, octx, depth=0):
        """number of iterations while p(i) >= 0, p decreasing in i"""
        lc = lin_coef_poly(p, i)
        if lc is not None:
            k, r = lc
            kc = k.const()
            if kc is None or kc < 0:
                s = -k if kc is None else P(-kc)
                if kc is not None or octx.entails(s - 1):
                    if s is ONE:
                        n = r + 1
                        if octx.entails(n):
                            return n
                        return ite(octx.bdd_value(ge0(n)), n, ZERO)
                    n = octx.simp(div(r + s, s))
                    if octx.entails(r + s):
                        return n
                    return ite(octx.bdd_value(ge0(r)), n, ZERO)
            elif kc >= 0:
                return None
        if depth >= 4:
            return None
        # a condition that does not change during the loop: solve for both of its values
        for a in p.atoms():
            if a.kind == "ind" and i not in a.fv:
                out = []
                for v in (1, 0):
                    c = octx.with_bdd(b_lit(a, bool(v)))
                    t = self.solve_ge(c.simp(T.restrict(p, a, v)), i, c, depth + 1)
                    if t is None:
                        return None
                    out.append(t)
                return ite(b_lit(a), out[0], out[1])
        # a wrapped counter that never wraps before the loop ends
        for a in p.atoms():
            if a.kind == "U" and i in a.fv:
                n, x = a.args
                lx = lin_coef_poly(x, i)
                if lx is None or lx[0].const() is None or lx[0].const() <= 0:
                    continue
                q = ZERO
                for m, c in p.items:
                    mono = P(c)
                    for b in m:
                        mono = mono * (x if b is a else P(b))
                    q = q + mono
                t = self.solve_ge(q, i, octx, depth + 1)
                if t is None or not self.always(ge0(lx[1]), octx) or \
                        not self.always(ge0((1 << n) - 1 - lx[1] - lx[0] * t), octx):
                    continue
                return t
        return None

    def solve_lit(self, a, pol, i, ictx, octx):
        kind, q = a.args
        if kind == "ge":
            return self.solve_ge(q if pol else -q - 1, i, octx)
        if kind == "eq" and not pol:
            lc = lin_coef_poly(q, i)
            if lc is None:
                return None
            k, r = lc
            z = exact_div(-r, k)
            if z is None:
                return None
            z = octx.simp(z)
            if octx.entails(z):
                return z
            return None
        if kind in ("gt", "rge"):
            return None
        return None

    # -------------------------------------------------------------- recurrences
    def solve_states(self, phis, init, nxt, sols, syms, st0, lst, cellsol, cellsym, arrsol, arrsym, i, X, ictx, octx, bctx, fold_now):
        ip = P(i)
        prog = False
        U_ = {}   # sym -> (kind, key, init value, next value)
        for p in phis:
            if p.name not in sols:
                U_[("p", p.name)] = [syms.get(p.name), init[p.name], nxt[p.name]]
        for k, (a, s) in cellsym.items():
            if k not in cellsol:
                U_[("c", k)] = [a, st0.cells[k], lst.cells.get(k, UNDEF)]
        asyms = frozenset(a for r, a in arrsym.items() if r not in arrsol)
        unsyms = set(x[0] for x in U_.values() if x[0] is not None)

        def put(key, v):
            if key[0] == "p":
                sols[key[1]] = v
            else:
                cellsol[key[1]] = v

        sub = {}
        work = True
        while work:
            work = False
            for key, (a, iv, nv) in list(U_.items()):
                if a is None:
                    # unknown kind: invariant?
                    if isinstance(iv, Ptr) and isinstance(nv, Ptr) and iv.alts == nv.alts:
                        put(key, iv)
                        del U_[key]
                        prog = work = True
                    elif iv is UNDEF and isinstance(nv, (Poly, BDD)):
                        if not (self.fv(nv) & unsyms) and not (self.fv(nv) & asyms):
                            put(key, self.sub_val(T.Sub({i: ip - 1}), nv))
                            del U_[key]
                            prog = work = True
                    elif isinstance(nv, Ptr) and isinstance(iv, Ptr):
                        f = self.fv(nv)
                        if not (f & unsyms) and not (f & asyms):
                            prev = self.sub_val(T.Sub({i: ip - 1}), nv)
                            put(key, self.ite_val(eq0(ip), iv, prev))
                            del U_[key]
                            prog = work = True
                    continue
                isb = isinstance(iv, BDD) or isinstance(nv, BDD)
                if isinstance(iv, Ptr) and iv.single() is None and isinstance(nv, Ptr) and \
                        [(g_, r_) for g_, r_, _ in nv.alts] == [(g_, r_) for g_, r_, _ in iv.alts] and \
                        all(octx.simp((x[2] - y[2]) - (nv.alts[0][2] - iv.alts[0][2])) is ZERO for x, y in zip(nv.alts, iv.alts)):
                    ivp, nvp = ZERO, nv.alts[0][2] - iv.alts[0][2]
                    wrap = lambda x, iv=iv: Ptr(tuple((g_, r_, o_ + x) for g_, r_, o_ in iv.alts))
                elif isinstance(iv, Ptr):
                    if not isinstance(nv, Ptr) or nv.single() is None or nv.single()[0] != iv.single()[0]:
                        if isinstance(nv, Ptr):
                            f = self.fv(nv)
                            if not (f & unsyms) and not (f & asyms):
                                prev = self.sub_val(T.Sub({i: ip - 1}), nv)
                                put(key, self.ite_val(eq0(ip), iv, prev))
                                del U_[key]
                                unsyms.discard(a)
                                prog = work = True
                        continue
                    root = iv.single()[0]
                    ivp, nvp = iv.single()[1], nv.single()[1]
                    wrap = lambda x, root=root: mkptr(root, x)
                    unit = self.ptr_unit(iv)
                    if unit != 1:
                        ivp, nvp = exact_div(ivp, P(unit)), exact_div(octx.simp(nvp), P(unit))
                        if ivp is None or nvp is None:
                            continue
                        wrap = lambda x, root=root, unit=unit: mkptr(root, x * unit)
                elif isb:
                    ivp = b_poly(iv) if isinstance(iv, BDD) else self.as_poly(iv)
                    nvp = b_poly(nv) if isinstance(nv, BDD) else self.as_poly(nv)
                    wrap = lambda x: (poly_bdd(x) if poly_bdd(x) is not None else eq0(x - 1))
                elif isinstance(nv, Poly) and (isinstance(iv, Poly) or iv is UNDEF):
                    ivp, nvp = iv, nv
                    wrap = lambda x: x
                else:
                    continue
                if sub:
                    nvp = T.Sub(sub).poly(nvp)
                nvp = bctx.simp(nvp)
                pa = P(a)
                v = None
                if nvp is pa:
                    v = ivp if ivp is not UNDEF else None
                    if v is None:
                        continue
                else:
                    un = nvp.fv & unsyms
                    if nvp.fv & asyms:
                        continue
                    if not un:
                        prev = T.Sub({i: ip - 1}).poly(nvp)
                        if ivp is UNDEF:
                            v = prev
                        else:
                            at0 = octx.simp(T.Sub({i: ZERO}).poly(prev)) if i in prev.fv else prev
                            if at0 is ivp:
                                v = prev
                            else:
                                v = ite(eq0(ip), ivp, prev)
                    elif un == {a} and ivp is not UNDEF:
                        d = nvp - pa
                        if a not in d.fv:
                            j = T.fresh("j")
                            dj = T.Sub({i: P(j)}).poly(d)
                            v = ivp + T.ssum(j, ip, dj)
                        else:
                            v = self.minmax(pa, nvp, a, i, ip, ivp)
                if v is not None:
                    put(key, wrap(v))
                    sub[a] = v
                    unsyms.discard(a)
                    del U_[key]
                    prog = work = True
        # arrays: once the scalars they depend on have their closed form
        for r in list(arrsym) if not sub else ():
            if r in arrsol:
                continue
            A = arrsym[r]
            arr = lst.arrs.get(r)
            if arr is None:
                continue
            base, nodes = self.chain(arr)
            if not (base.kind == "var" and base.args[0] is A):
                continue
            if sub:
                sb = T.Sub(sub)
                nodes = [sb.node(n) for n in nodes]
            nodes = [self.to_acc(n, base, A, bctx) for n in nodes]
            if any(n.fv & asyms for n in nodes):
                n2 = self.own_reads(nodes, st0, lst, arrsym, arrsol, sub, i, ip, bctx)
                if n2 is not None:
                    nodes = n2
            fv = frozenset().union(*[n.fv for n in nodes]) if nodes else frozenset()
            if fv & asyms or fv & unsyms:
                continue
            a0 = self.get_arr(st0, r)
            if not nodes:
                arrsol[r] = a0
            else:
                nodes = self.sink_invariant(nodes, i, bctx)
                arrsol[r] = mkarr("st", r, a0, mknode("loop", i, ip, tuple(nodes)))
                # rename the bound variable so that it differs from the free one
                j = T.mk("sym", "j" + i.args[0][1:])
                sbj = T.Sub({i: P(j)})
                arrsol[r] = mkarr("st", r, a0, mknode("loop", j, ip, tuple(sbj.node(n) for n in nodes)))
            prog = True
        if not prog and fold_now and not U_:
            # an array whose elements depend on its own earlier content: keep the recurrence itself
            for r in list(arrsym):
                A = arrsym[r]
                arr = lst.arrs.get(r)
                if r in arrsol or arr is None:
                    continue
                base, nodes = self.chain(arr)
                if not (base.kind == "var" and base.args[0] is A):
                    continue
                if sub:
                    sb = T.Sub(sub)
                    nodes = [sb.node(n) for n in nodes]
                fv = frozenset().union(*[n.fv for n in nodes]) if nodes else frozenset()
                if not nodes or (fv & asyms) - {A} or fv & unsyms or \
                        any(l.kind not in ("st", "acc") for n in nodes for _, l in arrays.leaves(n)):
                    continue
                T._fresh[0] += 1
                B = T.mk("sym", "R#%d" % T._fresh[0])
                j = T.mk("sym", "j" + i.args[0][1:])
                sbj = T.Sub({i: P(j)}, {A: mkarr("var", r, B)})
                arrsol[r] = mkarr("st", r, self.get_arr(st0, r),
                                  mknode("loop", j, ip, tuple(self.own_state(sbj.node(n), B) for n in nodes)))
                prog = True
                break
        if not prog and fold_now and U_:
            ks = [k for k, x in U_.items() if x[0] is not None and isinstance(x[1], (Poly, BDD)) and isinstance(x[2], (Poly, BDD))]
            ok = len(ks) == len(U_)
            if ok:
                states = tuple(U_[k][0] for k in ks)
                inits = tuple(self.as_poly(U_[k][1]) for k in ks)
                nexts = tuple(bctx.simp(self.as_poly(U_[k][2])) for k in ks)
                f = frozenset().union(*[n.fv for n in nexts])
                if not (f & asyms):
                    j = T.fresh("fj")
                    sj = T.Sub({i: P(j)})
                    nx = tuple(sj.poly(n) for n in nexts)
                    for w, k in enumerate(ks):
                        v = T.fold(j, ip, w, states, inits, nx)
                        put(k, (eq0(v - 1) if isinstance(U_[k][1], BDD) else v))
                    prog = True
        return prog

    def fv(self, v):
        if isinstance(v, Poly):
            return v.fv
        if isinstance(v, BDD):
            f = frozenset()
            for x in b_vars(v):
                f |= x.fv
            return f
        if isinstance(v, Ptr):
            f = frozenset()
            for g, r, o in v.alts:
                f |= o.fv | self.fv(g)
            return f
        return frozenset()

    def minmax(self, pa, nvp, a, i, ip, ivp):
        """next = p + [cond]*(x - p) with cond comparing x and p"""
        v = self.minmax1(pa, nvp, a, i, ip, ivp)
        if v is not None:
            return v
        # next = inner reduction that starts from p: min/max are idempotent, so it may start from init
        at = nvp.atom()
        if at is not None and at.kind == "red" and at.args[3] is pa and a not in at.args[2].fv and a not in at.args[4].fv:
            r = T.Sub({a: ivp}).poly(nvp)
            j = T.fresh("j")
            return T.red(at.args[1], j, ip, ivp, T.Sub({i: P(j)}).poly(r))
        # the state is compared in its machine width: use the representative in range
        for w in all_wraps(nvp, pa):
            k, n = w.kind, w.args[0]
            lo, hi = (0, (1 << n) - 1) if k == "U" else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
            iv2 = (U if k == "U" else S)(n, ivp)
            nv2 = replace_wrap(nvp, w, pa)
            v = self.minmax1(pa, nv2, a, i, ip, iv2, rng=(lo, hi))
            if v is None:
                at = nv2.atom()
                if at is not None and at.kind == "red" and at.args[3] is pa:
                    v = self.minmax(pa, nv2, a, i, ip, iv2)
            if v is not None:
                return v
        return None

    def minmax1(self, pa, nvp, a, i, ip, ivp, rng=None):
        inds = [x for x in nvp.atoms() if x.kind == "ind" and a in x.args[1].fv]
        if len(inds) != 1:
            return None
        c = inds[0]
        hi, lo = restrict(nvp, c, 1), restrict(nvp, c, 0)
        if hi is pa:
            x = lo
            takes = False
        elif lo is pa:
            x = hi
            takes = True
        else:
            return None
        if a in x.fv:
            return None
        if rng is not None:
            at = x.atom()
            if at is None or at.kind != "read" or not at.extra:
                return None
            sg, n = at.extra
            r = {"u": (0, (1 << n) - 1), "s": (-(1 << (n - 1)), (1 << (n - 1)) - 1)}.get(sg)
            if r is None or r[0] < rng[0] or r[1] > rng[1]:
                return None
        kind, q = c.args
        # condition under which x is taken
        d = x - pa
        if kind == "ge":
            cq = q if takes else -q - 1
            if cq in (d, d - 1):
                op = "max"
            elif cq in (-d, -d - 1):
                op = "min"
            else:
                return None
        elif kind in ("gt", "rge"):
            cq = q if takes else -q
            # scale
            lc = None
            for s in (1, -1):
                for k in (1,):
                    pass
            la = lin_coef_poly(cq, a)
            if la is None or la[0].const() is None:
                return None
            k = la[0].const()
            cqn = cq * (Fraction(1) / abs(k))
            if cqn is d:
                op = "max"
            elif cqn is -d:
                op = "min"
            else:
                return None
        else:
            return None
        j = T.fresh("j")
        xj = T.Sub({i: P(j)}).poly(x)
        return T.red(op, j, ip, ivp, xj)

    def to_acc(self, n, base, A, ctx):
        if n.kind == "loop":
            v, N, ch = n.args
            c = ctx.child()
            c.add_ge(P(v))
            c.add_ge(N - 1 - P(v))
            return mknode("loop", v, N, tuple(self.to_acc(x, base, A, c) for x in ch))
        if n.kind != "st" or A not in n.fv:
            return n
        g, idx, val = n.args[:3]
        # find the read of the base array at idx
        for m, c in val.items:
            if c == 1 and len(m) == 1 and m[0].kind == "read" and m[0].args[0] is base and \
                    ctx.simp(m[0].args[1] - idx) is ZERO:
                d = val - P(m[0])
                if A not in d.fv:
                    return mknode("acc", g, idx, d, *n.args[3:])
        return n

    def own_reads(self, nodes, st0, lst, arrsym, arrsol, sub, i, ip, ctx):
        """replace reads of loop-modified arrays that no earlier iteration can have written
        by reads of the content before the loop; None when that does not remove them all"""
        from .arrays import leaves
        cand = {}
        T._fresh[0] += 1
        hole = T.mk("sym", "hole#%d" % T._fresh[0], isint=True)
        j = T.fresh("oj")
        for r, A in arrsym.items():
            if r in arrsol:
                continue
            arr = lst.arrs.get(r)
            if arr is None:
                return None
            base, ns = self.chain(arr)
            if not (base.kind == "var" and base.args[0] is A):
                return None
            if sub:
                ns = [T.Sub(sub).node(n) for n in ns]
            hn = []
            ok = True
            asy = frozenset(arrsym.values())
            for n in ns:
                h = self.hollow(n, hole, asy)
                if h is None:
                    return None
                hn.append(h)
            sbj = T.Sub({i: P(j)})
            a0 = self.get_arr(st0, r)
            cand[A] = (r, mkarr("st", r, a0, mknode("loop", j, ip, tuple(sbj.node(n) for n in hn))) if hn else a0)
        class RS(T.Sub):
            bad = False

            def _atom(self, a):
                if a.kind == "read" and a.args[0].kind == "var" and a.args[0].args[0] in cand:
                    idx = self.poly(a.args[1])
                    v = arrays.resolve_read(cand[a.args[0].args[0]][1], idx, a.extra, a.isint, ctx)
                    if hole in v.fv:
                        self.bad = True
                    return v
                return T.Sub._atom(self, a)
        rs = RS({A: ZERO for A in cand})

        def fix_poly(p):
            v = rs.poly(p)
            return None if rs.bad else v

        def fix(n):
            if not (n.fv & frozenset(cand)):
                return n
            if n.kind == "loop":
                ch = [fix(c) for c in n.args[2]]
                if any(c is None for c in ch):
                    return None
                return mknode("loop", n.args[0], n.args[1], tuple(ch))
            v = fix_poly(n.args[2])
            if v is None:
                return None
            m = mknode(n.kind, n.args[0], n.args[1], v, *n.args[3:])
            return None if m.fv & frozenset(cand) else m
        out = [fix(n) for n in nodes]
        return None if any(n is None for n in out) else out

    def own_state(self, n, B):
        if n.kind == "loop":
            return mknode("loop", n.args[0], n.args[1], tuple(self.own_state(c, B) for c in n.args[2]))
        return mknode("rec", n.args[0], n.args[1], n.args[2], n.args[3] if len(n.args) > 3 else None, B, n.kind)

    def hollow(self, n, hole, asy):
        if n.kind == "loop":
            ch = [self.hollow(c, hole, asy) for c in n.args[2]]
            return None if any(c is None for c in ch) else mknode("loop", n.args[0], n.args[1], tuple(ch))
        g, idx = n.args[:2]
        f = idx.fv | self.fv(g)
        if f & asy:
            return None
        return mknode("st", g, idx, P(hole), *n.args[3:])

    def sink_invariant(self, nodes, i, ctx):
        return nodes
