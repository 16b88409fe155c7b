"""Ownership of dynamically allocated buffers: typestate over all paths, exception edges included, of
closed life cycles of every owning class, of every function with a raw allocation, and of every native method."""
import glob
import os
import re
from checks.common import *
from sa import ir, jni
from sa.paths import *

TECHNIQUE = ("typestate (ownership) analysis over the LLVM IR along all control-flow paths including exception edges, allocation failure included; "
             "library functions entered interprocedurally")
RULE = ("Every value of operator new on a path is passed to operator delete of the matching form exactly once before the path leaves the closed life "
        "cycle (construct, one or two operations, destroy) by return or exception; nothing that was not allocated there is deleted; memory is not "
        "used after its delete.  Functions with raw allocations and native methods: every allocation is deleted once or handed over on every path "
        "(returning paths only for native methods).")
NOTE = ("Life cycles: all sequences of one constructor and up to two operations (quick) or three (thorough) per class and element type; sizes, "
        "coordinates and contents are symbolic, band and block counts are the constants written in the life cycle; loops with undecided conditions run at "
        "most once.")
ASSUMPTIONS = ["members of the standard library manage their own memory", "destructors and operator delete do not throw",
               "clang's IR represents the source"]
LEVEL = "other"
DRIVERS = []

# class -> (includes, element types, makers, operations); a and b are objects of the class
SIG = "unsigned w, unsigned h, unsigned w2, unsigned h2, unsigned n, unsigned n2, unsigned x0, unsigned y0, unsigned x1, unsigned y1, unsigned off, unsigned st, %s *ext, const bool c"
IMG_OPS = [
    ("reshape", "a.reshape(w2,h2);"),
    ("grow-then-shrink", "a.reshape(w2,h2); a.reshape(w,h);"),
    ("copy-construct", "C k(a); use(k);"),
    ("assign-to", "C k(MAKE2); k = a; use(k);"),
    ("assign-from", "C k(MAKE2); a = k;"),
    ("self-assign", "a = self(a);"),
    ("assign-view", "C v(VIEW); a = v;"),
    ("view-assign", "C v(VIEW); v = a;"),
    ("copy-view", "C v(VIEW); C k(v); use(k);"),
    ("move-construct", "C k(std::move(a)); use(k);"),
    ("move-assign", "C k(MAKE2); k = std::move(a);"),
    ("move-from", "a = C(MAKE2);"),
    ("swap", "C k(MAKE2); std::swap(a,k);"),
    ("default", "C k; k = a; use(k);"),
    ("return-by-value", "C k(pass(a)); use(k);"),
    ("heap", "C* p = new C(a); delete p;"),
]
CLASSES = {
    "Gray": dict(types=["U8", "S16", "S32", "F32", "F64"], cls="Gray<%s>",
                 makers=[("owned", "C a(w,h);"), ("empty", "C a;"), ("view", "C a(ext,n,w,h,off,st);"), ("list", "C a({{1,2},{3,4}});"),
                         ("ragged", "C a({{1,2},{3}});"), ("zero-rows", "C a(std::initializer_list<std::initializer_list<E>>{});")],
                 ops=IMG_OPS + [("copy", "C k(MAKE2); k.copy(a);"), ("copied", "C k(MAKE2); a.copy(k);"),
                                ("subimage", "C v = a.makeSubimage(x0,y0,x1,y1); use(v);"),
                                ("assign-subimage", "C u; { C v = a.makeSubimage(x0,y0,x1,y1); u = v; } use(u);"),
                                ("subimage-of-subimage", "C v = a.makeSubimage(x0,y0,x1,y1); C u = v.makeSubimage(x0,y0,x1,y1); C k(u); use(k);"),
                                ("fill-view", "C v = a.makeSubimage(x0,y0,x1,y1); v.copy(v);")],
                 make2="w2,h2", view="ext,n,w2,h2,off,st"),
    "Interleaved": dict(types=["U8", "S32", "F32"], cls="Interleaved<%s>",
                        makers=[("owned", "C a(w,h,n);"), ("empty", "C a;"), ("view", "C a(ext,n,w,h,n2,off,st);")],
                        ops=IMG_OPS + [("setTo", "C k(MAKE2); k.setTo(a);"), ("set-from", "C k(MAKE2); a.setTo(k);"),
                                       ("bands", "a.setNumberOfBands(n2);"), ("reshape-bands", "a.reshape(w2,h2,n2);")],
                        make2="w2,h2,n2", view="ext,n,w2,h2,n2,off,st"),
    "GrowArray": dict(types=["U8", "S32", "F64"], cls="GrowArray<%s>",
                      makers=[("sized", "C a(n);"), ("default", "C a;"), ("view", "C a(ext,n,n2);"), ("list", "C a({1,2,3});")],
                      ops=[o for o in IMG_OPS if o[0] not in ("reshape", "grow-then-shrink")] +
                          [("grow", "a.grow_array(n2);"), ("resize", "a.resize(n2);"), ("grow-twice", "a.resize(n2); a.grow_array(w); a.resize(h);"),
                           ("fill", "a.fill(1);"), ("setTo", "a.setTo({3,4,5});"), ("set", "a.set(ext,n2);")],
                      make2="n2", view="ext,n,n2"),
    "Planar": dict(types=["U8", "F32"], cls="Planar<Gray<%s>>",
                   makers=[("none", "C a(w,h,0);"), ("one", "C a(w,h,1);"), ("three", "C a(w,h,3);"), ("empty", "C a;")],
                   ops=[o for o in IMG_OPS if "view" not in o[0]] +
                       [("more-bands", "a.setNumberOfBands(4);"), ("fewer-bands", "a.setNumberOfBands(1);"), ("no-bands", "a.setNumberOfBands(0);"),
                        ("set-from", "C k(w2,h2,2); a.setTo(k);"), ("setTo", "C k(w2,h2,2); k.setTo(a);"), ("self-set", "a.setTo(self(a));"),
                        ("band", "if( n < 1 ) { Gray<E> v = a.getBand(n).makeSubimage(x0,y0,x1,y1); }")],
                   make2="w2,h2,2", view=""),
    "PackedSet": dict(types=["S32", "Point2D<S32>"], cls="PackedSet<%s>",
                      makers=[("one", "C a(1);"), ("two", "C a(2);"), ("default", "C a;")],
                      ops=[("set", "a.start_new_set();"), ("push", "E e = E(); a.push_tail(e);"),
                           ("push3", "E e = E(); a.start_new_set(); a.push_tail(e); a.push_tail(e); a.push_tail(e);"),
                           ("remove", "a.remove_tail();"), ("clear", "a.clear();"), ("heap", "C* p = new C(2); delete p;"),
                           ("copy-construct", "COPY(k,a)"), ("assign", "C k(1); ASSIGN(k,a)")],
                      make2="2", view=""),
    "Kernel1D": dict(types=["S32", "F32"], cls="Kernel1D<%s>", makers=[("sized", "C a(n,n2);"), ("list", "C a(1,{1,2,3});"), ("empty", "C a;")],
                     ops=[("copy-construct", "COPY(k,a)"), ("assign", "C k; ASSIGN(k,a)"), ("heap", "C* p = new C(n,n2); delete p;")], make2="n,n2", view=""),
    "Kernel2D": dict(types=["S32", "F32"], cls="Kernel2D<%s>", makers=[("sized", "C a(n,n2);"), ("list", "C a(1,{{1,2,3},{4,5,6},{7,8,9}});"), ("empty", "C a;")],
                     ops=[("copy-construct", "COPY(k,a)"), ("assign", "C k; ASSIGN(k,a)"), ("heap", "C* p = new C(n,n2); delete p;")], make2="n,n2", view=""),
    "ContourTracer": dict(types=["U8"], cls="ContourTracer", makers=[("four", "C a(ConnectRule::FOUR);"), ("eight", "C a(ConnectRule::EIGHT);"), ("any", "C a(static_cast<ConnectRule>(n));")],
                          ops=[("copy-construct", "COPY(k,a)"), ("assign", "C k(ConnectRule::FOUR); ASSIGN(k,a)"), ("heap", "C* p = new C(ConnectRule::EIGHT); delete p;")],
                          make2="", view=""),
    "Labeler": dict(types=["U8"], cls="LinearContourLabelChang2004", makers=[("four", "C a(ConnectRule::FOUR);"), ("eight", "C a(ConnectRule::EIGHT);")],
                    ops=[("copy-construct", "COPY(k,a)"), ("assign", "C k(ConnectRule::FOUR); ASSIGN(k,a)"), ("heap", "C* p = new C(ConnectRule::EIGHT); delete p;")],
                    make2="", view=""),
    "BlockMean": dict(types=["U8", "F32"], cls="ThresholdBlockMean<%s>", makers=[("any", "C a(ConfigLength(1,n),1.0,c,c);")],
                      ops=[("copy-construct", "COPY(k,a)"), ("assign", "C k(ConfigLength(1,n),1.0,c,c); ASSIGN(k,a)"),
                           ("base-delete", "InputToBinary<Gray<E>>* p = new C(ConfigLength(1,n),1.0,c,c); delete p;")], make2="", view=""),
    "BlockOtsu": dict(types=["U8"], cls="ThresholdBlockOtsu<%s>", makers=[("any", "C a(c,ConfigLength(1,n),1.0,1.0,c,c);")],
                      ops=[("copy-construct", "COPY(k,a)"), ("base-delete", "InputToBinary<Gray<E>>* p = new C(c,ConfigLength(1,n),1.0,1.0,c,c); delete p;")], make2="", view=""),
    "BlockMinMax": dict(types=["U8"], cls="ThresholdBlockMinMax<%s>", makers=[("any", "C a(1.0,ConfigLength(1,n),1.0,c,c);")],
                        ops=[("copy-construct", "COPY(k,a)"), ("base-delete", "InputToBinary<Gray<E>>* p = new C(1.0,ConfigLength(1,n),1.0,c,c); delete p;")], make2="", view=""),
    "LocalMean": dict(types=["U8", "F32"], cls="LocalMeanBinaryFilter<%s>", makers=[("any", "C a(ConfigLength(1,n),1.0,c);")],
                      ops=[("copy-construct", "COPY(k,a)"), ("base-delete", "InputToBinary<Gray<E>>* p = new C(ConfigLength(1,n),1.0,c); delete p;")], make2="", view=""),
}
PRELUDE = '''
#include <utility>
#include <type_traits>
#include <new>
#include <memory>
#include <random>
#include <vector>
#include <cmath>
#include <iostream>
#include "image_types.h"
#include "base_types.h"
#include "convolve_kernels.h"
#include "packed_sets.h"
#include "threshold_block_filters.h"
#include "binary_ops.h"
#include "contour.h"
using namespace boofcv;
template<class C> C& self(C& a) { return a; }
template<class C> C pass(C& a) { return a; }
template<class C> void use(C&) {}
template<class C, bool B> struct Cp { static void c(C& a) { C k(a); use(k); } static void a(C& x, C& y) { x = y; } };
template<class C> struct Cp<C,false> { static void c(C&) {} static void a(C&,C&) {} };
#define COPY(k,a) Cp<C,std::is_copy_constructible<C>::value>::c(a);
#define ASSIGN(k,a) Cp<C,std::is_copy_assignable<C>::value>::a(k,a);
'''


def text(cname, depth):
    """driver source and the list of life cycles (function, maker, operations)"""
    k = CLASSES[cname]
    out, lst = [PRELUDE], []
    for t in k["types"]:
        out.append("namespace n_%s { typedef %s E; typedef %s C;" % (re.sub(r"\W", "_", t), t, k["cls"] % t if "%s" in k["cls"] else k["cls"]))
        for mk, mt in k["makers"]:
            seqs = [()] + [(o,) for o in k["ops"]]
            if depth >= 2 and (t == k["types"][0] or depth >= 3):
                seqs += [(o, q) for o in k["ops"] for q in k["ops"]]
            for s in seqs:
                nm = "life_%d" % len(lst)
                body = " ".join("{ %s }" % o[1] for o in s).replace("MAKE2", k["make2"]).replace("VIEW", k["view"])
                out.append('extern "C" void %s(%s) { %s %s }' % (nm, SIG % "E", mt, body))
                lst.append((nm, t, mk, [o[0] for o in s]))
        out.append("}")
    return "\n".join(out), lst


OPAQUE = re.compile(r"^(std::vector|std::__cxx11|std::basic_|std::_Vector|std::allocator|std::__detail|std::mersenne|std::uniform|std::mutex|std::invalid_arg|std::runtime"
                    r"|std::ostream|std::operator<<|std::length_error|std::logic_error|std::exception|std::out_of)")


def lib_inline(name, e):
    f, m, d = e
    fl = (d.file_of_scope(f.dbg) or "") if f.dbg is not None else ""
    dm = demangle(name)
    if "/boofcv/" in fl or "boofcv" in fl or fl.endswith(".cpp"):
        return not name.startswith("JNIEnv_")
    if dm.startswith("boofcv::") or re.match(r"^(void|bool|int|unsigned|boofcv).* boofcv::", dm):
        return True
    base = re.sub(r"^(\w[\w ]*[&*]* |.*[>&*] )?(?=std::)", "", dm, count=1)
    return not OPAQUE.match(dm) and not OPAQUE.match(base)


def no_throw(n):
    d = demangle(n)
    return n.startswith(("_Zd", "__cxa", "_ZNSt16invalid", "_ZNSt13runtime", "_ZNSt11logic", "_ZNSt12out_of", "memcpy", "memset", "memmove", "sqrt", "round")) or \
        "::~" in d or n.startswith("_ZNKSt6vector") or re.search(r"::(begin|end|size|clear|back|front|operator\[\]|data|empty|pop_back)\(", d) or n.startswith("_ZNKSt16init")


def engine(mods, inline=lib_inline, new_throws=True):
    en = Engine(mods, inline, may_throw=lambda n: not no_throw(n), max_paths=20000, max_steps=3000000)
    en.known_limit, en.unroll = 70, 1
    en.new_throws, en.track_use, en.resolve_virtual = new_throws, True, True
    return en


FORM = {"_Znwm": "delete", "_Znam": "delete[]"}


def judge(p, closed=True, escapes=False, own=None):
    """violations on one path"""
    live, dead, bad, gone = {}, {}, [], set()
    for e in p.events:
        if e.kind == "new":
            live[e.ret[1]] = e
        elif e.kind == "delete" or e.kind == "call" and e.name.startswith("virtual:") and e.name != "virtual:0" and e.args and root_of(e.args[0])[0] == "heap" and isdel(e):
            a = e.args[0]
            r = root_of(a)
            form = "delete[]" if e.name.startswith("_Zda") else "delete"
            if a == ("int", 0):
                continue
            if a[0] == "undef" or r[0] == "undef":
                bad.append((e, "%s of an uninitialised pointer" % form))
            elif r in dead:
                bad.append((e, "%s of memory that was deleted before" % form))
            elif r in live:
                n = live.pop(r)
                dead[r] = e
                want = "delete[]" if r[2].startswith("_Zna") else "delete"
                if want != form and e.kind == "delete":
                    bad.append((e, "memory of new%s is freed with %s" % ("[]" if want == "delete[]" else "", form)))
                if a[0] == "ptr" and a[2] != 0 and e.kind == "delete":
                    bad.append((e, "%s of a pointer into the middle of a buffer" % form))
            elif r in gone:
                pass
            elif r[0] in ("alloca", "global"):
                bad.append((e, "%s of an object that is not on the heap" % form))
            elif closed and r[0] in ("param",):
                bad.append((e, "%s of memory that belongs to the caller" % form))
        elif e.kind in ("load", "store"):
            r = root_of(e.args[0])
            if r in dead:
                bad.append((e, "memory is used after its delete"))
            if e.kind == "store" and escapes and len(e.args) > 1:
                x = root_of(e.args[1])
                if x in live and root_of(e.args[0])[0] not in ("heap", "alloca"):
                    gone.add(x)
                    live.pop(x)
            elif e.kind == "store" and len(e.args) > 1 and not known(e.args[0]):
                # kept at a place the analysis cannot name
                x = root_of(e.args[1])
                if x in live:
                    gone.add(x)
                    live.pop(x)
        elif e.kind == "guess":
            # a loop that frees things has a bound the analysis does not know: what the tables hold may or may not be freed by it
            for (rg, o), v in e.mem.items() if e.mem else p.mem.items():
                if isinstance(v, tuple):
                    for x in tokens(v):
                        if x in live and root_of(rg)[0] == "heap":
                            gone.add(x)
                            live.pop(x)
        elif e.kind == "copy":
            # an unknown part of a buffer is copied: what it holds may be held twice
            r = root_of(e.args[1])
            for (rg, o), v in p.mem.items():
                if root_of(rg) == r and isinstance(v, tuple):
                    for x in tokens(v):
                        if x in live:
                            gone.add(x)
                            live.pop(x)
        else:
            for a in e.args:
                if isinstance(a, tuple):
                    for x in tokens(a):
                        if x in dead and e.kind in ("call", "env") and not e.name.startswith("__cxa"):
                            bad.append((e, "memory is used after its delete"))
                        if escapes and x in live:
                            gone.add(x)
                            live.pop(x)
    if escapes:     # what is reachable from something that outlives the path
        held = {}
        todo = list(gone)
        if p.ret is not None:
            todo += list(tokens(p.ret))
        for (rg, o), v in p.mem.items():
            if isinstance(v, tuple):
                r = root_of(rg)
                ts = list(tokens(v))
                if isinstance(r, tuple) and r[0] == "heap":
                    held.setdefault(r, []).extend(ts)
                elif isinstance(r, tuple) and r[0] != "alloca":
                    todo += ts
        for e in p.events:      # through unknown positions
            if e.kind == "store" and len(e.args) > 1 and isinstance(e.args[1], tuple):
                r = root_of(e.args[0])
                if r[0] == "heap":
                    held.setdefault(r, []).extend(tokens(e.args[1]))
        seen = set()
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                live.pop(x, None)
                todo += held.get(x, [])
    for r, e in live.items():
        if own is None or e.func == own:
            bad.append((e, "memory allocated here is never freed on a path that %s" % ("returns" if p.end == "return" else "leaves by an exception")))
    return bad


def known(a):
    return a[0] == "ptr" and isinstance(a[2], int) and isinstance(a[1], tuple) and a[1][0] in ("heap", "alloca", "param", "global")


def isdel(e):
    return True


def tokens(v):
    r = root_of(v)
    if isinstance(r, tuple) and r and r[0] == "heap":
        yield r
    elif isinstance(v, tuple):
        for x in v[1:]:
            if isinstance(x, tuple):
                yield from tokens(x)


def report(base, key, bads):
    """distinct violations"""
    seen, out = set(), []
    for e, why, p, who in bads:
        k = (str(e.loc), why)
        if k in seen:
            continue
        seen.add(k)
        fn = demangle(e.func).split("(")[0] if e.func else ""
        out.append(dict(base, status="refuted", loc=e.loc, detail="%s (%s), in %s" % (why, who, fn),
                        key="%s/%s/%s" % (key, re.sub(r"\W+", "-", fn.replace("boofcv::", ""))[:50].strip("-"), why.replace(" ", "-")[:60])))
    return out[:8]


def life(cname, tier, part, parts):
    src, lst = text(cname, 3 if tier == "thorough" else 2)
    with Tmp() as tmp:
        f = os.path.join(tmp, "life.cpp")
        open(f, "w").write(src)
        o = os.path.join(tmp, "life.ll")
        mods = []
        for k, q in enumerate([f] + sorted(glob.glob(os.path.join(REPO, "boofcpp/src/boofcv/*.cpp")))):
            ir.compile_ll(q, o, passes="sroa,simplifycfg")
            m = ir.parse_module(open(o).read())
            mods.append((m, ir.Debug(m)))
            if cname not in ("ContourTracer", "Labeler"):
                break
    en = engine(mods)
    bads, paths, n, cut = [], 0, 0, 0
    stopped = []
    fns = set()
    for k, (nm, t, mk, ops) in enumerate(lst):
        if k % parts != part:
            continue
        e = en.fns[nm]
        args = [("param", "p%d" % i, v.lstrip("%")) for i, (v, ty, at) in enumerate(e[0].params)]
        args = [("ptr", a, 0) if ty.k == "ptr" else a for a, (v, ty, at) in zip(args, e[0].params)]
        try:
            ps = en.run(nm, args)
        except Budget as x:
            stopped.append((nm, mk, ops))
            continue
        n += 1
        paths += len(ps)
        for p in ps:
            if p.end in ("return", "throw"):
                fns |= {x.func for x in p.events}
                who = "%s of %s: %s" % (cname, t, " then ".join([mk] + ops))
                bads += [(e, why, p, who) for e, why in judge(p)]
    base = {"functions": len(fns), "leaves": paths, "sites": n}
    if bads:
        return report(base, "life/" + cname, bads)
    if not n:
        return dict(base, status="open", detail="no life cycle was followed to its end", loc=None, key="life/%s/%d" % (cname, part))
    return dict(base, status="proved", loc=None, key="life/%s/%d" % (cname, part), detail="%d life cycles, %d stopped" % (n, len(stopped)))


def raw(kind, path):
    """functions that allocate in their own body"""
    with Tmp() as tmp:
        if kind == "jni":
            mods = jni.load(tmp, REPO)
        else:
            o = os.path.join(tmp, "u.ll")
            ir.compile_ll(path, o, passes="sroa,simplifycfg")
            m = ir.parse_module(open(o).read())
            mods = [(m, ir.Debug(m))]
    out = []
    en = engine(mods, inline=lambda n, e: lib_inline(n, e) and (n.startswith("_ZNSt") or n.startswith("_ZSt")))
    en.inline_args = lambda n, e, args: lib_inline(n, e) and any(isinstance(a, tuple) and root_of(a)[0] == "heap" for a in args)
    cands = []
    for nm, (f, m, d) in sorted(en.fns.items()):
        fl = (d.file_of_scope(f.dbg) or "") if f.dbg is not None else ""
        dm = demangle(nm)
        if not lib_inline(nm, (f, m, d)) or "std::" in dm.split("(")[0].split("<")[0] or not ("boofcv" in fl):
            continue
        if any(i.op in ("call", "invoke") and re.search(r"@_Zn[wa]m", i.text) for b in f.order for i in b.insts):
            cands.append(nm)
    for nm in cands:
        f, m, d = en.fns[nm]
        args = [("ptr", ("param", "p%d" % i, v.lstrip("%")), 0) if ty.k == "ptr" else ("param", "p%d" % i, v.lstrip("%")) for i, (v, ty, at) in enumerate(f.params)]
        key = "raw/%s/%s" % (os.path.basename(path) if path else "jni", demangle(nm).split("(")[0].replace("boofcv::", ""))
        try:
            ps = en.run(nm, args)
        except Budget as x:
            out.append(dict(status="open", key=key, detail=str(x), loc=None))
            continue
        bads = []
        for p in ps:
            if p.end == "return" or p.end == "throw":
                bads += [(e, why, p, "any caller") for e, why in judge(p, closed=False, escapes=True, own=nm)]
        base = {"functions": 1, "leaves": len(ps)}
        if bads:
            out += report(base, key, bads)
        else:
            out.append(dict(base, status="proved", key=key, loc=None))
    return out or [dict(status="proved", key="raw/" + (os.path.basename(path) if path else "jni"), detail="no raw allocation", loc=None, functions=len(en.fns))]


def native(nm):
    with Tmp() as tmp:
        mods = jni.load(tmp, REPO)
    return native1(jni.make_engine(mods), nm)


def native1(en, nm):
    en.track_use = True
    bads = []
    ps = jni.run_native(en, nm)
    for p in ps:
        if p.end == "return":
            bads += [(e, why, p, "native method") for e, why in judge(p, closed=False, escapes=True)]
    base = {"functions": len({e.func for p in ps for e in p.events}), "leaves": len(ps), "sites": sum(1 for p in ps for e in p.events if e.kind in ("new", "delete"))}
    key = "native/" + nm[len("Java_org_boofcpp_"):]
    if bads:
        return report(base, key, bads)
    return dict(base, status="proved", loc=None, key=key)


def obligations(ws, tier):
    obs = []
    for c in CLASSES:
        parts = 8 if c in ("Gray", "Interleaved", "GrowArray") else 4 if c == "Planar" else 1
        obs += [Ob("life/%s/%d" % (c, i), life, c, tier, i, parts, timeout=300) for i in range(parts)]
    for p in sorted(glob.glob(os.path.join(REPO, "boofcpp/src/boofcv/*.cpp"))) + [os.path.join(VERIF, "drivers", x) for x in ("inst.cpp", "conv.cpp", "blur.cpp", "pix.cpp", "data.cpp")]:
        obs.append(Ob("raw/" + os.path.basename(p), raw, "tu", p))
    with Tmp() as tmp:
        mods = jni.load(tmp, REPO)
    en = jni.make_engine(mods)
    obs += [Ob("native/" + n, native1, en, n) for n in sorted(jni.natives(en))]
    return obs
