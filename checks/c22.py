"""Native handles, constructor arguments and image/kernel arguments of the bridge."""
import re
from checks.common import *
from checks.c20 import short, method, base_obj, acquired_in
from checks.c21 import pixel_sig
from sa import jni, java
from sa.paths import *

TECHNIQUE = ("value-flow analysis over the JNI sources' LLVM IR along all paths: class of the object stored in a handle against the class named by every "
             "cast of that handle (type tests, member calls), and symbolic provenance of every argument of library calls")
RULE = ("Under each truth value of the pixel-type flags the handle is converted only to the class (or a primary base of the class) the constructor stored; "
        "constructor, configuration and operator arguments come from the Java parameter of the same meaning; an image argument carries the pixels, size, offset "
        "and stride of one and the same Java image.")
NOTE = "arguments whose C++ parameter has no counterpart in the table of meanings are not decided; the Java ordinals of BorderType and ConnectRule are BoofCV's"
LEVEL = "other"

P_ = lambda k: ("P", k)
# Java class -> C++ class, {C++ constructor parameter: Java parameter position}; positions count from the first declared parameter
HANDLES = {
    "NativeBlockMean": ("boofcv::ThresholdBlockMean", {"requestedBlockWidth": 0, "scale": 1, "down": 2, "thresholdFromLocalBlocks": 3}),
    "NativeBlockMinMax": ("boofcv::ThresholdBlockMinMax", {"requestedBlockWidth": 0, "scale": 1, "down": 2, "minimumSpread": 3, "thresholdFromLocalBlocks": 4}),
    "NativeBlockOtsu": ("boofcv::ThresholdBlockOtsu", {"otsu2": 0, "requestedBlockWidth": 1, "tuning": 2, "scale": 3, "down": 4, "thresholdFromLocalBlocks": 5}),
    "NativeLocalMean": ("boofcv::LocalMeanBinaryFilter", {"regionWidth": 0, "scale": 1, "down": 2}),
    "NativeGlobalFixed": ("boofcv::GlobalFixedBinaryFilter", {"threshold": 0, "down": 1}),
    "NativeGlobalOtsu": ("boofcv::GlobalOtsuBinaryFilter", {"min_value": 0, "max_value": 1, "down": 2}),
    "NativeChang2004": ("boofcv::LinearContourLabelChang2004", None),
}
CONFIGS = ("requestedBlockWidth", "regionWidth")
BORDERS = {1: "EXTENDED", 3: "REFLECT", 4: "WRAP", 5: "ZERO"}
# operator calls: C++ function -> expected arguments
OPS = {
    "nativeHorizontal": ("boofcv::ConvolveImage::horizontal", ["kernel:0", "border:3:1", "image:2"]),
    "nativeVertical": ("boofcv::ConvolveImage::vertical", ["kernel:0", "border:3:1", "image:2"]),
    "nativeConvolve": ("boofcv::ConvolveImage::convolve", ["kernel:0", "border:3:1", "image:2"]),
    "nativehorizontal": ("boofcv::ConvolveNormalized::horizontal", ["kernel:0", "image:1", "image:2"]),
    "nativevertical": ("boofcv::ConvolveNormalized::vertical", ["kernel:0", "image:1", "image:2"]),
    "nativeMean": ("boofcv::BlurImageOps::mean", ["image:0", "image:1", "P:2", "image:3"]),
    "nativeGaussian": ("boofcv::BlurImageOps::gaussian", ["image:0", "image:1", "P:2", "gwidth:3", "image:4"]),
    "native_process": ("boofcv::LinearContourLabelChang2004::process", ["handle", "image:0", "image:1"]),
}
FIELDS = {"setSaveInnerContour": ("set", "saveInternalContours"), "isSaveInternalContours": ("get", "saveInternalContours"),
          "setMinContour": ("set", "minContourSize"), "getMinContour": ("get", "minContourSize"),
          "setMaxContour": ("set", "maxContourSize"), "getMaxContour": ("get", "maxContourSize")}


def pk(v):
    """Java parameter position of a parameter value"""
    return int(v[1][1:]) - 2 if v[0] == "param" else None


def strip(v):
    """value without conversions"""
    while True:
        if v[0] == "cast":
            v = v[2]
        elif v[0] == "not" and v[1][0] == "cmp" and v[1][1] == "eq" and v[1][3] == ("int", 0):
            v = v[1][2]
        elif v[0] == "ptr" and v[2] == 0 and v[1][0] in ("field", "ret", "param", "jret"):
            v = v[1]
        else:
            return v


def truth(v):
    """(value, negated): the value a truth value is computed from, and whether it is its negation"""
    neg = False
    while True:
        v = strip(v)
        if v[0] == "not":
            v, neg = v[1], not neg
        elif v[0] == "cmp" and v[1] == "eq" and v[3] in (("int", 0), ("int", 1)):
            neg = neg != (v[3] == ("int", 0))
            v = v[2]
        elif v[0] == "op" and v[1] in ("and", "xor") and ("int", 1) in v[2:]:
            neg = neg != (v[1] == "xor")
            v = v[3] if v[2] == ("int", 1) else v[2]
        else:
            return v, neg


def implied(p, k):
    """truth of a value that the branches of the path have tested (a predicate on values), or None"""
    for c, pol in p.lits.items():
        x, neg = truth(c)
        if x != c and k(x):
            return pol != neg
    return None


def is_handle(v):
    """value read from the field nativePtr of this"""
    v = strip(v)
    o, n = base_obj(v)
    return n == "nativePtr" and o is not None and o[0] == "param" and o[1] == "p1"


def flag(p):
    """value of isInteger on this path"""
    for c, pol in p.lits.items():
        x, neg = truth(c)
        o, n = base_obj(x)
        if n == "isInteger" and o[0] == "param" and o[1] == "p1":
            return pol != neg
    return None


def layouts(en):
    out = {}
    for f, m, d in en.fns.values():
        if id(m) not in out:
            out[id(m)] = d.struct_members()
    return out


class World:
    def __init__(self, en, classes):
        self.en, self.classes = en, classes
        self.lay = layouts(en)
        self.bases = {}
        self.enums = {}
        for f, m, d in en.fns.values():
            if id(m) in self.bases:
                continue
            self.bases[id(m)] = 1
            for g, t in m.globals.items():
                if g.startswith("_ZTI"):
                    self.bases[g] = re.findall(r"ptr @(_ZTI[\w.]+)", t)
            for i, t in m.md.items():
                if "DW_TAG_enumeration_type" in t:
                    el = d.ref(t, "elements")
                    nm = (d.field(t, "name") or "").strip('"')
                    if el is not None and nm:
                        for x in re.findall(r"!(\d+)", d.node(el)):
                            e = d.node(int(x))
                            self.enums.setdefault(nm, {})[d.field(e, "name").strip('"')] = int(d.field(e, "value"))

    def offset(self, cls, member):
        for l in self.lay.values():
            for n, mem in l.values():
                if n == cls and member in mem:
                    return mem[member][0]
        return None

    def derived(self, a, b):
        """typeinfo symbol suffix a is b or has it as (transitive) primary base"""
        seen, todo = set(), [a]
        while todo:
            x = todo.pop()
            if x == b:
                return True
            if x not in seen:
                seen.add(x)
                todo += [y[4:] for y in self.bases.get("_ZTI" + x, [])[:1]]
        return False


def ctor_class(dm):
    """class constructed by a demangled constructor name"""
    head = dm.split("(")[0]
    k = head.rfind("::")
    d = 0
    for i in range(len(head) - 1, -1, -1):      # last :: outside template arguments
        if head[i] == ">":
            d += 1
        elif head[i] == "<":
            d -= 1
        elif d == 0 and head[i - 1:i + 1] == "::":
            k = i - 1
            break
    cls, fn = head[:k], head[k + 2:]
    base = re.sub(r"<.*", "", cls).split("::")[-1]
    return cls if re.sub(r"<.*", "", fn) == base else None


def dtor_class(dm):
    m = re.match(r"^(.*)::~\w+\(", dm)
    return m.group(1) if m else None


_paths = {}


def paths(en, name):
    if name not in _paths:
        _paths[name] = [p for p in jni.run_native(en, name) if p.end == "return"]
    return _paths[name]


def stored(W, init):
    """class of the object stored in the handle, per value of isInteger: {flag: {(class, event)}}"""
    out = {}
    for p in paths(W.en, init):
        for e in p.events:
            if e.kind == "env" and e.name == "SetLongField" and e.args[1][0] == "fid" and e.args[1][2] == ("str", "nativePtr"):
                v = strip(e.args[2])
                if v[0] == "ptr":
                    for c in p.events:
                        if c.kind == "call" and c.args and c.args[0] == ("ptr", v[1], 0) and ctor_class(demangle(c.name)):
                            out.setdefault(flag(p), set()).add((ctor_class(demangle(c.name)), c))
                            break
                    else:
                        out.setdefault(flag(p), set()).add((None, e))
                else:
                    out.setdefault(flag(p), set()).add((None, e))
    return out


def mangled_of(dm, en):
    """typeinfo suffix of a demangled class name"""
    for n in list(en.fns):
        if "C2E" in n and ctor_class(demangle(n)) == dm:
            return n[2:n.index("C2E")] + "E" if n.startswith("_ZN") else None
    return None


def handle(W, c, natives):
    init = [n for n in natives if method(n) in ("nativeinit", "native_init")]
    if not init:
        return {"status": "open", "detail": "no native constructor"}
    st = stored(W, init[0])
    bad = []
    cpp, _ = HANDLES.get(c.name, (None, None))
    nuse = 0
    for fl, s in st.items():
        for cls, e in s:
            if cls is None:
                return {"status": "open", "detail": "stored object not identified"}
            if cpp and fl is not None:
                want = "%s<%s>" % (cpp, "unsigned char" if fl else "float")
                if cls != want:
                    bad.append((e, "%s stores a %s when isInteger is %s, its pixel type needs %s" % (method(init[0]), cls, fl, want)))
            elif cpp and re.sub(r"<.*", "", cls) != cpp:
                bad.append((e, "%s stores a %s" % (method(init[0]), cls)))
    fns = 0
    for n in natives:
        if n in init:
            continue
        fns += 1
        for p in paths(W.en, n):
            fl = flag(p)
            have = set()
            for k, s in st.items():
                if k is None or fl is None or k == fl:
                    have |= {x for x, _ in s}
            for e in p.events:
                if e.kind not in ("call", "delete") or not e.args or not isinstance(e.args[0], tuple):
                    continue
                if not is_handle(e.args[0]):
                    continue
                nuse += 1
                use = None
                if e.name.startswith("virtual:"):
                    if e.cls:
                        use = demangle("_ZTI" + e.cls[4:]).replace("typeinfo for ", "")
                else:
                    dm = demangle(e.name)
                    use = dtor_class(dm) or member_class(dm)
                if use is None:
                    continue
                for h in have:
                    if h == use:
                        continue
                    a, b = mangled_of(h, W.en), None
                    if e.cls:
                        b = e.cls[4:]
                    if a and b and W.derived(a, b):
                        if e.name == "virtual:1" or e.name == "virtual:0":
                            pass
                        continue
                    bad.append((e, "%s uses the handle as %s%s, it was created as %s" % (
                        method(n), use, "" if fl is None else " when isInteger is %s" % fl, h)))
    base = {"functions": fns + 1, "sites": nuse}
    return verdict(bad, base, "handle/" + c.name)


def member_class(dm):
    head = dm.split("(")[0]
    if head.startswith(("std::", "operator")):
        return None
    d = 0
    for i in range(len(head) - 1, 0, -1):
        if head[i] == ">":
            d += 1
        elif head[i] == "<":
            d -= 1
        elif d == 0 and head[i - 1:i + 1] == "::":
            return head[:i - 1].split(" ")[-1] if "<" not in head[:i - 1] else head[:i - 1]
    return None


def verdict(bad, base, key):
    if not bad:
        return dict(base, status="proved", loc=None)
    seen, out = set(), []
    for e, why in bad:
        k = (str(e.loc), why)
        if k not in seen:
            seen.add(k)
            out.append(dict(base, status="refuted", loc=e.loc, detail=why, key=key))
    return out[:6]


def field_of(v, k, name):
    """v is field `name` of Java parameter k"""
    v = strip(v)
    o, n = base_obj(v)
    return n == name and o is not None and pk(o) == k


def is_config(W, mem, v, k):
    """pointer to a ConfigLength holding length and fraction of parameter k; None when unknown"""
    if v[0] != "ptr":
        return None
    res = True
    for n in ("length", "fraction"):
        off = W.offset("ConfigLength", n)
        x = mem.get((v[1], v[2] + off)) if off is not None else None
        if x is None:
            return None
        if not field_of(x, k, n):
            res = False
    return res


def init_args(W, c, init):
    cpp, table = HANDLES[c.name]
    bad, n, unknown = [], 0, []
    for p in paths(W.en, init):
        for e in p.events:
            if e.kind != "call" or not e.args or e.args[0][0] != "ptr" or e.args[0][1][0] != "heap":
                continue
            cc = ctor_class(demangle(e.name))
            if not cc or e.name not in W.en.fns:
                continue
            names = [x[0].lstrip("%") for x in W.en.fns[e.name][0].params]
            for nm, v in list(zip(names, e.args))[1:]:
                nm = nm.split(".")[0]
                if nm not in table:
                    unknown.append(nm)
                    continue
                n += 1
                k = table[nm]
                if nm in CONFIGS:
                    mem = dict(e.mem or {})
                    r = is_config(W, mem, v, k)
                    if r is None:
                        # the copy made by an opaque copy constructor
                        src = copied_from(p, e, v)
                        r = is_config(W, src[1], src[0], k) if src else None
                    if r is None:
                        unknown.append(nm)
                    elif not r:
                        bad.append((e, "constructor parameter %s of %s does not hold length and fraction of Java parameter %d" % (nm, cc, k)))
                    continue
                s, neg = truth(v)
                known = implied(p, lambda x: pk(x) == k)
                if s[0] == "param":
                    if pk(s) != k:
                        bad.append((e, "constructor parameter %s of %s gets Java parameter %d, not %d" % (nm, cc, pk(s), k)))
                    elif neg:
                        bad.append((e, "constructor parameter %s of %s gets the negated Java parameter" % (nm, cc)))
                elif s[0] == "int" and known is not None:
                    if (s[1] != 0) != known:
                        bad.append((e, "constructor parameter %s of %s is %s where the Java parameter %d is %s" % (nm, cc, not known, k, known)))
                elif s[0] in ("int", "flt"):
                    bad.append((e, "constructor parameter %s of %s is a constant" % (nm, cc)))
                else:
                    unknown.append(nm)
    base = {"sites": n}
    if bad:
        return verdict(bad, base, "arguments/%s.nativeinit" % c.name)
    if unknown or not n:
        return dict(base, status="open", detail="parameters not decided: %s" % sorted(set(unknown)))
    return dict(base, status="proved")


def copied_from(p, ev, v):
    for e in p.events:
        if e is ev:
            return None
        if e.kind == "call" and len(e.args) == 2 and e.args[0] == v and ctor_class(demangle(e.name)):
            return e.args[1], e.mem
    return None


def image_desc(W, en, p, mem, v):
    """which Java image an image object describes: ('image', k) | ('mixed', text) | None"""
    if v[0] != "ptr" or v[1][0] != "alloca":
        return None
    got = {}
    g = "Gray<unsigned char>"
    for n in ("data", "width", "height", "offset", "stride"):
        off = W.offset(g, n)
        if off is None:
            return None
        got[n] = mem.get((v[1], v[2] + off))
    if any(x is None for x in got.values()):
        return None
    ks = {}
    for n, jn in (("width", "width"), ("height", "height"), ("offset", "startIndex"), ("stride", "stride")):
        o, f = base_obj(strip(got[n]))
        if o is None:
            return None
        ks[n] = (pk(o), f, jn)
    t = acquired_in(got["data"])
    if t is not None:
        o, f = base_obj(t[3])
        if o is None:
            return None
        if not (got["data"][0] == "ptr" and got["data"][1][0] == "acquired" and got["data"][2] == 0):
            return ("mixed", "the pixel pointer is not the start of the Java array")
        ks["data"] = (pk(o), f, "data")
    elif got["data"] == ("int", 0):
        return ("mixed", "its pixel pointer is null")
    for n, (k, f, jn) in ks.items():
        if f != jn:
            return ("mixed", "its %s is the Java field %s" % (n, f))
    if len({k for k, _, _ in ks.values()}) != 1:
        return ("mixed", "its members come from different Java images: %s" % sorted((n, k[0]) for n, k in ks.items()))
    return ("image", ks["width"][0])


def match(W, en, p, e, v, want, mname):
    """None = undecided, '' = fine, text = wrong"""
    parts = want.split(":")
    kind = parts[0]
    if kind == "handle":
        return "" if is_handle(v) else None
    if kind == "P":
        s = strip(v)
        if s[0] == "param":
            return "" if pk(s) == int(parts[1]) else "is Java parameter %d, not %s" % (pk(s), parts[1])
        return None if s[0] not in ("int", "flt") else "is a constant"
    if kind == "image":
        d = image_desc(W, en, p, e.mem, v)
        if d is None:
            return None
        if d[0] == "mixed":
            return "is not one Java image: " + d[1]
        return "" if d[1] == int(parts[1]) else "is the image of Java parameter %d, not %s" % (d[1], parts[1])
    if kind == "kernel":
        return kernel(p, e, v, int(parts[1]))
    if kind == "border":
        tp = im = None
        for x in p.events:
            if x is e:
                break
            if x.kind == "call" and x.args:
                dm = demangle(x.name)
                if "create_SB" in dm or "FactoryImageBorder::create" in dm:
                    tp = x
                if ("::setImage(" in dm or x.name.startswith("virtual:")) and strip(x.args[0]) == strip(v):
                    im = x
        r = []
        if im is None:
            return None
        d = image_desc(W, en, p, e.mem, im.args[1])
        if d is None:
            return None
        if d[0] == "mixed":
            return "reads an image that is not one Java image: " + d[1]
        if d[1] != int(parts[2]):
            return "reads the image of Java parameter %d, not %s" % (d[1], parts[2])
        if tp is None:
            return None
        t = tp.args[-1] if tp.args[-1][0] == "int" else None
        o = None
        for c, pol in p.lits.items():
            if c[0] == "cmp" and c[1] == "eq" and pol and c[3][0] == "int" and pk(strip(c[2])) == int(parts[1]):
                o = c[3][1]
        if t is None or o is None:
            return None
        names = W.enums.get("BorderType", {})
        if o not in BORDERS:
            return "accepts the Java border ordinal %d" % o
        if names.get(BORDERS[o]) != t[1]:
            return "has border type %s for the Java border %s" % ([k for k, x in names.items() if x == t[1]], BORDERS[o])
        return ""
    if kind == "gwidth":
        # width of the Gaussian kernel: 2*radius+1, negative when the radius is not given
        for r in (-1, 0, 1, 2, 5):
            ok = True
            for c, pol in p.lits.items():
                x = evalterm(c, int(parts[1]), r)
                if x is not None and bool(x) != pol:
                    ok = False
            if not ok:
                continue
            x = evalterm(v, int(parts[1]), r)
            if x is None:
                return None
            if (x != 2 * r + 1) if r > 0 else (x > 0):
                return "is %d for radius %d" % (x, r)
        return ""
    return None


def kernel(p, e, v, k):
    if v[0] != "ptr" or v[1][0] != "heap":
        return None
    cons = data = None
    for x in p.events:
        if x is e:
            break
        if x.kind == "call" and x.args and x.args[0][0] == "ptr" and x.args[0][1] == v[1]:
            dm = demangle(x.name)
            if ctor_class(dm):
                cons = x
            elif "::set(" in dm:
                data = x
    if cons is None or len(cons.args) != 3:
        return None
    for a, n in ((cons.args[1], "width"), (cons.args[2], "offset")):
        o, f = base_obj(strip(a))
        if o is None:
            return None
        if f != n or pk(o) != k:
            return "is built with its %s from the Java field %s of parameter %d" % (n, f, pk(o))
    if data is None:
        return "gets no coefficients"
    t = acquired_in(data.args[1])
    if t is None:
        return None
    o, f = base_obj(t[3])
    if o is None:
        return None
    if f != "data" or pk(o) != k or data.args[1][2] != 0:
        return "takes its coefficients from field %s of parameter %d" % (f, pk(o))
    n = strip(data.args[2])
    if n[0] == "len" and n[1] != t[3]:
        return "takes its coefficient count from another array"
    return ""


def evalterm(c, k, val):
    """value of a term over Java parameter k; None when it mentions anything else"""
    if c[0] == "int":
        return c[1]
    if c[0] == "param":
        return val if pk(c) == k else None
    if c[0] == "not":
        x = evalterm(c[1], k, val)
        return None if x is None else int(not x)
    if c[0] == "cast":
        return evalterm(c[2], k, val)
    if c[0] in ("cmp", "op"):
        a, b = evalterm(c[2], k, val), evalterm(c[3], k, val)
        if a is None or b is None:
            return None
        f = {"eq": lambda: a == b, "slt": lambda: a < b, "ult": lambda: a < b, "add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b,
             "shl": lambda: a << b, "or": lambda: a | b}.get(c[1])
        return None if f is None else int(f())
    return None


def op_args(W, name):
    mname = method(name)
    fn, want = OPS[mname]
    bad, und, n = [], [], 0
    for p in paths(W.en, name):
        calls = [e for e in p.events if e.kind == "call" and re.sub(r"<.*", "", demangle(e.name).split("(")[0]).split(" ")[-1] == fn]
        if not calls:
            if not any(x.kind == "threw" for x in p.events):
                und.append("no call of " + fn)
            continue
        for e in calls:
            for k, w in enumerate(want):
                if k >= len(e.args):
                    und.append(w)
                    continue
                n += 1
                r = match(W, W.en, p, e, e.args[k], w, mname)
                if r is None:
                    und.append(w)
                elif r:
                    bad.append((e, "argument %d of %s %s" % (k + 1, fn, r)))
    base = {"sites": n}
    if bad:
        return verdict(bad, base, "arguments/" + short(name))
    if und:
        return dict(base, status="open", detail="not decided: %s" % sorted(set(und)))
    return dict(base, status="proved")


def process_args(W, name):
    """images of a threshold's process call, in order"""
    bad, und, n = [], [], 0
    for p in paths(W.en, name):
        calls = [e for e in p.events if e.kind == "call" and len(e.args) == 3 and is_handle(e.args[0]) and e.args[1][0] == "ptr"]
        if not calls:
            if not any(x.kind in ("threw", "throw") for x in p.events) and not any(c[0] == "pending" or c[0] == "cmp" and c[2][0] == "pending" and not v for c, v in p.lits.items()):
                bad_e = p.events[-1]
                und.append("no process call")
            continue
        for e in calls:
            for k in (1, 2):
                n += 1
                d = image_desc(W, W.en, p, e.mem, e.args[k])
                if d is None:
                    und.append("image %d" % k)
                elif d[0] == "mixed":
                    bad.append((e, "image argument %d is not one Java image: %s" % (k, d[1])))
                elif d[1] != k - 1:
                    bad.append((e, "image argument %d is the image of Java parameter %d" % (k, d[1])))
    base = {"sites": n}
    if bad:
        return verdict(bad, base, "arguments/" + short(name))
    if und or not n:
        return dict(base, status="open", detail="not decided: %s" % sorted(set(und)))
    return dict(base, status="proved")


def accessor(W, name):
    mode, member = FIELDS[method(name)]
    off = W.offset("LinearContourLabelChang2004", member)
    if off is None:
        return {"status": "open", "detail": "no member " + member}
    bad, n, und = [], 0, []
    for p in paths(W.en, name):
        n += 1
        if mode == "set":
            st = [e for e in p.events if e.kind == "store" and e.args[0][0] == "ptr" and is_handle(("ptr", e.args[0][1], 0))]
            if not st:
                und.append("no store")
            for e in st:
                if e.args[0][2] != off:
                    bad.append((e, "%s stores to another member than %s" % (method(name), member)))
                s, neg = truth(e.args[1])
                known = implied(p, lambda x: pk(x) == 0)
                if s[0] == "int" and known is not None:
                    if s[1] not in (0, 1):
                        und.append("constant")
                    elif (s[1] != 0) != known:
                        bad.append((e, "%s stores the negated argument" % method(name)))
                elif s[0] == "param" and pk(s) != 0 or s[0] in ("int",):
                    bad.append((e, "%s does not store its argument" % method(name)))
                elif pk(s) == 0 and neg:
                    bad.append((e, "%s stores the negated argument" % method(name)))
        else:
            r, neg = truth(p.ret)
            e = p.events[-1]
            known = implied(p, lambda x: x[0] == "mem" and is_handle(("ptr", x[1], 0)) and x[2] == off)
            if r[0] == "mem" and is_handle(("ptr", r[1], 0)):
                if r[2] != off:
                    bad.append((e, "%s returns another member than %s" % (method(name), member)))
                elif neg:
                    bad.append((e, "%s returns the negated member" % method(name)))
            elif r[0] == "int" and known is not None:
                if r[1] not in (0, 1):
                    und.append("constant")
                elif (r[1] != 0) != known:
                    bad.append((e, "%s returns the negated member" % method(name)))
            elif r[0] in ("int",):
                bad.append((e, "%s returns a constant" % method(name)))
            else:
                und.append(show(r))
    if bad:
        return verdict(bad, {"sites": n}, "accessor/" + short(name))
    if und:
        return {"status": "open", "detail": str(und)[:100]}
    return {"status": "proved", "sites": n}


def rule_map(W, name):
    """ConnectRule: ordinal 0 is FOUR, 1 is EIGHT, in both directions"""
    en = W.enums.get("ConnectRule", {})
    bad, und, n = [], [], 0
    for p in paths(W.en, name):
        n += 1
        if method(name) == "setConnectRule":
            o = None
            for c, pol in p.lits.items():
                if c[0] == "cmp" and c[1] == "eq" and pol and c[3][0] == "int" and c[2][0] == "jret":
                    o = c[3][1]
            for e in p.events:
                if e.kind == "call" and "::setConnectRule(" in demangle(e.name):
                    a = strip(e.args[1])
                    if o is None or a[0] != "int":
                        if a[0] != "jret":
                            und.append("?")
                        continue
                    if o not in (0, 1):
                        bad.append((e, "ordinal %d is accepted" % o))
                    elif a[1] != en.get(("FOUR", "EIGHT")[o]):
                        bad.append((e, "ordinal %d sets the rule %s" % (o, [k for k, v in en.items() if v == a[1]])))
        else:
            rule = None
            for c, pol in p.lits.items():
                if c[0] == "cmp" and c[1] == "eq" and c[3][0] == "int" and strip(c[2])[0] in ("ret", "mem"):
                    v = c[3][1]
                    nm = [k for k, x in en.items() if x == v]
                    if nm:
                        rule = nm[0] if pol else {"FOUR": "EIGHT", "EIGHT": "FOUR"}[nm[0]]
            f = [e for e in p.events if e.kind == "env" and e.name == "GetStaticFieldID"]
            if rule is None or not f or f[-1].args[1][0] != "str":
                und.append("?")
            elif f[-1].args[1][1] != rule:
                bad.append((f[-1], "%s is returned for the rule %s" % (f[-1].args[1][1], rule)))
    if bad:
        return verdict(bad, {"sites": n}, "rule/" + short(name))
    if und:
        return {"status": "open", "detail": "rule not determined"}
    return {"status": "proved", "sites": n}


def obligations(ws, tier):
    with Tmp() as tmp:
        mods = jni.load(tmp, REPO)
    en = jni.make_engine(mods)
    classes = java.load(REPO)
    W = World(en, classes)
    obs = []
    nats = jni.natives(en)
    for c in classes.values():
        mine = [n for n in sorted(nats) if n.startswith(java.native_name(c, ""))]
        if not mine:
            continue
        if c.name in HANDLES:
            obs.append(Ob("handle/" + c.name, handle, W, c, mine))
        for n in mine:
            mt = method(n)
            if mt == "nativeinit" and HANDLES.get(c.name, (0, None))[1]:
                obs.append(Ob("arguments/" + short(n), init_args, W, c, n))
            if mt == "nativeprocess":
                obs.append(Ob("arguments/" + short(n), process_args, W, n))
            if mt in OPS:
                obs.append(Ob("arguments/" + short(n), op_args, W, n))
            if mt in FIELDS:
                obs.append(Ob("accessor/" + short(n), accessor, W, n))
            if mt in ("setConnectRule", "getConnectRule"):
                obs.append(Ob("rule/" + short(n), rule_map, W, n))
    return obs
