"""Abstract interpretation of the Java wrappers: for every method the calls made on each path, with the provenance of their arguments."""
import glob
import json
import os
import subprocess

SRC = "boofcpp-jni/src/main/java"
HERE = os.path.dirname(os.path.abspath(__file__))
_memo = {}


def load(repo):
    """{class name: class tree (with file)}; None when the sources do not parse"""
    if repo in _memo:
        return _memo[repo]
    files = sorted(f for f in glob.glob(os.path.join(repo, SRC, "**", "*.java"), recursive=True) if os.sep + "org" + os.sep in f)
    r = subprocess.run(["java", os.path.join(HERE, "Dump.java")] + files, capture_output=True, text=True)
    out = None
    if r.returncode == 0:
        out = {}
        for u in json.loads(r.stdout):
            for t in u["types"]:
                if t and "members" in t:
                    t["file"] = os.path.relpath(u["file"], repo)
                    out[t["name"]] = t
    _memo[repo] = out
    return out


class State:
    def __init__(self):
        self.env, self.fields, self.trace, self.conds, self.unknown = {}, {}, [], {}, None

    def copy(self):
        s = State()
        s.env, s.fields, s.trace, s.conds, s.unknown = dict(self.env), dict(self.fields), list(self.trace), dict(self.conds), self.unknown
        return s


THIS = ("this",)
MAXP = 400


class Interp:
    def __init__(self, classes, cls):
        self.classes, self.cls = classes, cls
        self.n = 0

    def chain(self, cls=None):
        c = cls or self.cls
        out = []
        while c in self.classes and c not in out:
            out.append(c)
            e = self.classes[c].get("ext")
            c = e.split("<")[0].strip() if e else None
        return out

    def find(self, name, nargs, cls=None):
        for c in self.chain(cls):
            for m in self.classes[c]["members"]:
                if m["k"] == "METHOD" and m["name"] == name and len(m["params"]) == nargs:
                    return c, m
        return None, None

    def is_field(self, name):
        return any(m["k"] == "VARIABLE" and m["name"] == name for c in self.chain() for m in self.classes[c]["members"])

    # ------------------------------------------------------------ expressions: list of (value, state)
    def ev(self, e, s, owner):
        k = e["k"]
        if k in ("PARENTHESIZED", "TYPE_CAST"):
            return self.ev(e["e"], s, owner)
        if k == "IDENTIFIER":
            n = e["name"]
            if n == "this":
                return [(THIS, s)]
            if n in s.env:
                return [(s.env[n], s)]
            if self.is_field(n):
                return [(s.fields.get((THIS, n), ("field", THIS, n)), s)]
            return [(("static", n), s)]
        if k.endswith("_LITERAL"):
            return [(("lit", e.get("v")), s)]
        if k == "MEMBER_SELECT":
            out = []
            for v, t in self.ev(e["e"], s, owner):
                if v[0] == "static":
                    out.append((("static", v[1] + "." + e["name"]), t))
                else:
                    out.append((t.fields.get((v, e["name"]), ("field", v, e["name"])), t))
            return out
        if k == "MEMBER_REFERENCE":
            return [(("ref", e["e"].get("name"), e["name"]), s)]
        if k == "INSTANCE_OF":
            return [(("instanceof", v, e["type"]), t) for v, t in self.ev(e["e"], s, owner)]
        if k == "ASSIGNMENT":
            out = []
            for v, t in self.ev(e["r"], s, owner):
                out += [(v, u) for u in self.assign(e["l"], v, t, owner)]
            return out
        if k == "CONDITIONAL_EXPRESSION":
            out = []
            for c, t in self.ev(e["c"], s, owner):
                for val, u in self.branch(c, t):
                    out += self.ev(e["a"] if val else e["b"], u, owner)
            return out
        if k == "NEW_CLASS":
            out = []
            for a, t in self.evs(e["args"], s, owner):
                self.n += 1
                out.append((("new", e["c"].split("<")[0], tuple(a), self.n), t))
            return out
        if k == "METHOD_INVOCATION":
            return self.call(e, s, owner)
        if "l" in e and "r" in e and e["l"] and not k.endswith("ASSIGNMENT"):
            out = []
            for a, t in self.ev(e["l"], s, owner):
                for b, u in self.ev(e["r"], t, owner):
                    out.append((("bin", k, a, b), u))
            return out
        if "e" in e and k in ("LOGICAL_COMPLEMENT", "UNARY_MINUS", "UNARY_PLUS", "BITWISE_COMPLEMENT"):
            return [(("un", k, v), t) for v, t in self.ev(e["e"], s, owner)]
        s = s.copy()
        s.unknown = s.unknown or "expression %s at line %s" % (k, e["line"])
        self.n += 1
        return [(("?", self.n), s)]

    def evs(self, es, s, owner):
        out = [([], s)]
        for e in es:
            out = [(a + [v], u) for a, t in out for v, u in self.ev(e, t, owner)]
        return out

    def assign(self, l, v, s, owner):
        while l["k"] == "PARENTHESIZED":
            l = l["e"]
        if l["k"] == "IDENTIFIER":
            t = s.copy()
            if l["name"] in t.env:
                t.env[l["name"]] = v
            elif self.is_field(l["name"]):
                t.fields[(THIS, l["name"])] = v
                t.trace.append(("write", THIS, l["name"], v, l["line"]))
            else:
                t.trace.append(("write", ("static", ""), l["name"], v, l["line"]))
            return [t]
        if l["k"] == "MEMBER_SELECT":
            out = []
            for o, t in self.ev(l["e"], s, owner):
                t = t.copy()
                t.fields[(o, l["name"])] = v
                t.trace.append(("write", o, l["name"], v, l["line"]))
                out.append(t)
            return out
        t = s.copy()
        t.unknown = t.unknown or "assignment at line %s" % l["line"]
        return [t]

    def branch(self, c, s):
        neg = False
        while c[0] == "un" and c[1] == "LOGICAL_COMPLEMENT":
            c, neg = c[2], not neg
        if c[0] == "bin" and c[1] == "NOT_EQUAL_TO":
            c, neg = ("bin", "EQUAL_TO") + c[2:], not neg
        if c[0] == "lit" and c[1] in ("true", "false"):
            return [((c[1] == "true") != neg, s)]
        if c in s.conds:
            return [(s.conds[c] != neg, s)]
        if c[0] == "bin" and c[1] in ("CONDITIONAL_OR", "CONDITIONAL_AND"):
            stop = (c[1] == "CONDITIONAL_OR")
            out = []
            for v, t in self.branch(c[2], s):
                if v == stop:
                    out.append((v != neg, t))
                else:
                    out += [(w != neg, u) for w, u in self.branch(c[3], t)]
            return out
        out = []
        for v in (True, False):
            t = s.copy()
            t.conds[c] = v
            out.append((v != neg, t))
        return out

    def call(self, e, s, owner):
        f = e["f"]
        name = f["name"]
        out = []
        if f["k"] == "IDENTIFIER" or f["k"] == "MEMBER_SELECT" and f["e"]["k"] == "IDENTIFIER" and f["e"]["name"] in ("this", "super", self.cls):
            qual = f["e"]["name"] if f["k"] == "MEMBER_SELECT" else None
            for a, t in self.evs(e["args"], s, owner):
                if name in ("super", "this"):
                    cls = self.chain(owner)[1] if name == "super" and len(self.chain(owner)) > 1 else owner if name == "this" else None
                    if cls is None:
                        out.append((("lit", "null"), t))
                        continue
                    out += [(("lit", "null"), u) for u in self.construct(cls, a, t)]
                    continue
                start = self.chain(owner)[1:2] if qual == "super" else [None]
                c, m = self.find(name, len(a), start[0]) if start else (None, None)
                if m is None:
                    self.n += 1
                    t = t.copy()
                    t.trace.append(("call", THIS if qual != "super" else ("super",), name, tuple(a), e["line"]))
                    out.append((("call", name, THIS, tuple(a), self.n), t))
                elif m["body"] is None:
                    self.n += 1
                    t = t.copy()
                    t.trace.append(("native", THIS, name, tuple(a), e["line"], m))
                    out.append((("call", name, THIS, tuple(a), self.n), t))
                else:
                    out += self.enter(c, m, a, t)
            return out
        for o, t in self.ev(f["e"], s, owner):
            for a, u in self.evs(e["args"], t, owner):
                u = u.copy()
                self.n += 1
                pure = not a and (name.startswith(("get", "is", "ordinal")) or name in ("ordinal", "width", "height"))
                u.trace.append(("call", o, name, tuple(a), e["line"]))
                out.append((("call", name, o, tuple(a)) if pure else ("call", name, o, tuple(a), self.n), u))
        return out

    def enter(self, cls, m, a, s):
        """values and states after a method of this object"""
        if len(s.trace) > 300:
            s.unknown = "too long"
            return [(("?", 0), s)]
        saved = s.env
        t = s.copy()
        t.env = {p["name"]: v for p, v in zip(m["params"], a)}
        out = []
        for u, how, v in self.run(m["body"]["body"], t, cls):
            if how == "throw":
                u.thrown = True
                self.thrown.append(u)
                continue
            u = u.copy()
            u.env = dict(saved)
            out.append((v or ("lit", "null"), u))
        return out

    def construct(self, cls, a, s):
        ms = [m for m in self.classes[cls]["members"] if m["k"] == "METHOD" and m["name"] == "<init>" and len(m["params"]) == len(a)]
        saved = s.env
        if not ms:
            return [s]
        m = ms[0]
        t = s.copy()
        t.env = {p["name"]: v for p, v in zip(m["params"], a)}
        out = []
        for u, how, v in self.run(m["body"]["body"], t, cls):
            if how == "throw":
                continue
            u = u.copy()
            u.env = dict(saved)
            out.append(u)
        return out

    # ------------------------------------------------------------ statements: list of (state, how, value)
    def run(self, stmts, s, owner):
        live, out = [s], []
        for st in stmts:
            nxt = []
            for x in live:
                for u, how, v in self.stmt(st, x, owner):
                    (nxt if how == "next" else out).append(u if how == "next" else (u, how, v))
            live = nxt
            if len(live) + len(out) > MAXP:
                raise RuntimeError("too many paths")
        return out + [(u, "next", None) for u in live]

    def stmt(self, st, s, owner):
        k = st["k"]
        if k == "EXPRESSION_STATEMENT":
            return [(t, "next", None) for v, t in self.ev(st["e"], s, owner)]
        if k == "VARIABLE":
            if st["init"] is None:
                t = s.copy()
                t.env[st["name"]] = ("lit", "undefined")
                return [(t, "next", None)]
            out = []
            for v, t in self.ev(st["init"], s, owner):
                t = t.copy()
                t.env[st["name"]] = v
                out.append((t, "next", None))
            return out
        if k == "BLOCK":
            return self.run(st["body"], s, owner)
        if k == "SYNCHRONIZED":
            return self.run(st["body"]["body"], s, owner)
        if k == "RETURN":
            if st["e"] is None:
                return [(s, "return", None)]
            return [(t, "return", v) for v, t in self.ev(st["e"], s, owner)]
        if k == "THROW":
            return [(s, "throw", None)]
        if k == "IF":
            out = []
            for c, t in self.ev(st["c"], s, owner):
                for v, u in self.branch(c, t):
                    b = st["a"] if v else st["b"]
                    out += self.stmt(b, u, owner) if b else [(u, "next", None)]
            return out
        if k == "EMPTY_STATEMENT" or k == "ASSERT":
            return [(s, "next", None)]
        if k == "TRY":
            out = []
            for u, how, v in self.run(st["body"]["body"], s, owner):
                if st["fin"] is None:
                    out.append((u, how, v))
                else:
                    for w, h2, v2 in self.run(st["fin"]["body"], u, owner):
                        out.append((w, how, v) if h2 == "next" else (w, h2, v2))
            return out
        t = s.copy()
        t.unknown = t.unknown or "statement %s at line %s" % (k, st["line"])
        return [(t, "next", None)]

    def method(self, cls, m):
        """states on normal return, with the value returned"""
        s = State()
        self.thrown = []
        s.env = {p["name"]: ("param", p["name"]) for p in m["params"]}
        body = m["body"]["body"]
        if m["name"] == "<init>":
            e = body[0] if body else None
            explicit = e and e["k"] == "EXPRESSION_STATEMENT" and e["e"]["k"] == "METHOD_INVOCATION" and e["e"]["f"]["k"] == "IDENTIFIER" and e["e"]["f"]["name"] in ("super", "this")
            if not explicit and len(self.chain(cls)) > 1:
                r = self.construct(self.chain(cls)[1], [], s)
                s = r[0] if r else s
                s.env = {p["name"]: ("param", p["name"]) for p in m["params"]}
        return [(u, v) for u, how, v in self.run(body, s, cls) if how != "throw"]


def params_in(v, out=None):
    out = set() if out is None else out
    if isinstance(v, tuple):
        if v[:1] == ("param",):
            out.add(v[1])
        else:
            for x in v:
                params_in(x, out)
    return out


def names_in(v, out=None):
    """names of calls and fields in a value"""
    out = set() if out is None else out
    if isinstance(v, tuple):
        if v[:1] == ("call",):
            out.add(v[1])
        if v[:1] == ("field",):
            out.add(v[2])
        for x in v:
            names_in(x, out)
    return out


INIT = ("nativeinit", "native_init")
DESTROY = ("nativedestroy", "native_destroy")
# native method -> (position of the input image, of the output image, the wrapper must shape the output, the wrapper must set the pixel type)
IMAGES = {"nativeprocess": (0, 1, True, False), "native_process": (0, 1, True, False),
          "nativeConvolve": (1, 2, True, True), "nativeHorizontal": (1, 2, True, True), "nativeVertical": (1, 2, True, True),
          "nativeMean": (0, 1, True, True), "nativeGaussian": (0, 1, True, True),
          "nativehorizontal": (1, 2, False, True), "nativevertical": (1, 2, False, True)}
# wrapper method -> native method
STANDS = {"process": ("nativeprocess", "native_process"), "convolve": ("nativeConvolve", None), "processMean": ("nativeMean",),
          "processGaussian": ("nativeGaussian",)}
BY_CLASS = {"NativeConvolveImage": {"convolve": "nativeConvolve", "horizontal": "nativeHorizontal", "vertical": "nativeVertical"},
            "NativeImageBlurOps": {"processMean": "nativeMean", "processGaussian": "nativeGaussian"},
            "NativeImageConvolveNormalized": {"horizontal": "nativehorizontal", "vertical": "nativevertical"},
            "NativeChang2004": {"process": "native_process"}}
RENAMED = {"borderType": "border"}
DERIVED = ("borderType", "storage")
OVERRIDES = {"globalFixed": "NativeGlobalFixed", "globalOtsu": "NativeGlobalOtsu", "blockMinMax": "NativeBlockMinMax", "blockMean": "NativeBlockMean",
             "blockOtsu": "NativeBlockOtsu", "localMean": "NativeLocalMean", "chang2004": "NativeChang2004"}


class J:
    """judge of one class"""

    def __init__(self, classes, cls):
        self.classes, self.cls = classes, cls
        self.tree = classes[cls]
        self.methods = [m for m in self.tree["members"] if m["k"] == "METHOD"]
        self.bad, self.und, self.n = [], [], 0

    def hit(self, line, why):
        self.bad.append((line, why))

    def verdict(self, key):
        base = {"sites": self.n}
        if self.bad:
            out, seen = [], set()
            for line, why in self.bad:
                if why not in seen:
                    seen.add(why)
                    out.append(dict(base, status="refuted", loc=(self.tree["file"], line), detail=why, key=key))
            return out[:4]
        if self.und or not self.n:
            return dict(base, status="open", detail="not decided: %s" % sorted(set(self.und))[:4])
        return dict(base, status="proved")

    def paths(self, m):
        it = Interp(self.classes, self.cls)
        try:
            ps = it.method(self.cls, m)
        except RecursionError:
            ps = []
        except RuntimeError:
            ps = []
        if not ps:
            return []
        return ps

    def args(self, m, call):
        """the native call's arguments are the wrapper's parameters of the same name"""
        names = [p["name"] for p in call[5]["params"]]
        mine = [p["name"] for p in m["params"]]
        for nm, v in zip(names, call[3]):
            want = nm if nm in mine else RENAMED.get(nm)
            if want not in mine:
                if not params_in(v):
                    self.und.append("%s of %s" % (nm, call[2]))
                continue
            self.n += 1
            if v == ("param", want):
                continue
            p = params_in(v)
            if v[0] == "param" or v[0] == "lit":
                self.hit(call[4], "%s passes %s as %s to %s" % (m["name"], v[1], nm, call[2]))
            elif v[0] in ("bin", "un") and want in p and not nm in DERIVED:
                self.hit(call[4], "%s changes %s before %s" % (m["name"], want, call[2]))
            elif want in p and nm in DERIVED:
                continue
            elif nm in DERIVED and not p and v[0] in ("new", "call"):
                continue
            else:
                self.und.append("%s of %s" % (nm, call[2]))

    def pixel_type(self, m, before, line, what, want_in, want_out):
        """isInteger (and the numbers of bits) were set from the image the operation is for"""
        for f, getter, want in (("isInteger", "isInteger", want_in), ("inputBits", "getNumBits", want_in), ("outputBits", "getNumBits", want_out)):
            if want is None:
                continue
            w = [t for t in before if t[0] == "write" and t[2] == f]
            self.n += 1
            if not w:
                self.hit(line, "%s runs %s before %s is set for its image type" % (m["name"], what, f))
                continue
            v = w[-1][3]
            p = params_in(v)
            if v[0] == "lit":
                self.hit(w[-1][4], "%s sets %s to the constant %s" % (m["name"], f, v[1]))
            elif v[0] == "un" and v[1] == "LOGICAL_COMPLEMENT" and v[2][0] == "call" and v[2][1] == getter:
                self.hit(w[-1][4], "%s is negated" % f)
            elif p and want not in p:
                self.hit(w[-1][4], "%s is taken from %s instead of %s" % (f, "/".join(sorted(p)), want))
            elif v[0] == "call" and v[1] in ("isSigned", "isInteger", "getNumBits", "getDataType") and v[1] != getter:
                self.hit(w[-1][4], "%s is taken from %s()" % (f, v[1]))
            elif want not in p or getter not in names_in(v):
                self.und.append(f)

    def shaped(self, m, before, line, what, inp, out):
        self.n += 1
        dims = lambda v: v[2] if v[0] == "field" and v[1] == inp else {"getWidth": "width", "getHeight": "height"}.get(v[1]) if v[0] == "call" and v[2] == inp else None
        r = [t for t in before if t[0] == "call" and t[1] == out and t[2] == "reshape"]
        other = [t for t in before if t[0] == "call" and (t[1] == out and t[2] != "reshape" and not t[2].startswith(("get", "is")) or out in t[3])]
        if not r:
            if other:
                self.und.append("shape of the output")
            else:
                self.hit(line, "%s does not give the output the shape of the input before %s" % (m["name"], what))
            return
        a = r[-1][3]
        if len(a) == 2:
            d = [dims(x) for x in a]
            if d == ["width", "height"]:
                return
            if all(x[0] in ("field", "lit", "param") or x[0] == "call" and x[1] in ("getWidth", "getHeight") or x[0] == "bin" for x in a):
                self.hit(r[-1][4], "%s reshapes the output to something else than the input's width and height" % m["name"])
                return
        self.und.append("shape of the output")

    def run_op(self, m, native):
        ps = self.paths(m)
        for s, v in ps:
            calls = [t for t in s.trace if t[0] == "native" and t[2] not in INIT + DESTROY]
            self.n += 1
            if s.unknown:
                self.und.append(s.unknown)
                continue
            mine = [t for t in calls if t[2] == native]
            wrong = [t for t in calls if t[2] != native and t[2] in IMAGES]
            if wrong:
                self.hit(wrong[0][4], "%s calls %s instead of %s" % (m["name"], wrong[0][2], native))
                continue
            if not mine:
                self.hit(m["line"], "%s returns without calling %s" % (m["name"], native))
                continue
            c = mine[-1]
            before = s.trace[:s.trace.index(c)]
            self.args(m, c)
            i, o, shape, typ = IMAGES[native]
            if len(c[3]) > max(i, o):
                if shape:
                    self.shaped(m, before, c[4], native, c[3][i], c[3][o])
                if typ:
                    inp, out = c[3][i], c[3][o]
                    conv = self.cls == "NativeConvolveImage"
                    if inp[0] == "param":
                        self.pixel_type(m, before, c[4], native, inp[1], out[1] if conv and out[0] == "param" else None)
            names = [p["name"] for p in c[5]["params"]]
            if "storage" in names and len(c[3]) > names.index("storage"):
                v = c[3][names.index("storage")]
                if v[0] == "param" and not any(v in k for k in s.conds if isinstance(k, tuple)) and not any(t[0] == "call" and (t[1] == v or v in t[3]) for t in before):
                    self.hit(c[4], "%s passes its work image on unchecked" % m["name"])
            if self.cls == "NativeChang2004":
                for f in ("storageContours",):
                    self.n += 1
                    if not any(t[0] == "call" and t[1] == ("field", THIS, f) and t[2] in ("reset", "clear", "resize", "removeAll") for t in before) \
                            and not any(t[0] == "write" and t[2] == f for t in before):
                        self.hit(m["line"], "%s keeps the %s of the previous image" % (m["name"], f))
        if not ps:
            self.und.append("no normally returning path")


def ctor(Jc, natives):
    for m in Jc.methods:
        if m["name"] != "<init>" or m["body"] is None:
            continue
        ps = Jc.paths(m)
        for s, v in ps:
            Jc.n += 1
            if s.unknown:
                Jc.und.append(s.unknown)
                continue
            c = [t for t in s.trace if t[0] == "native" and t[2] in INIT]
            if not c:
                Jc.hit(m["line"], "the constructor returns without creating the native object")
                continue
            if len(c) > 1:
                Jc.hit(c[1][4], "the constructor creates a second native object")
            Jc.args(m, c[0])
            if "NativeBase" in Interp(Jc.classes, Jc.cls).chain():
                before = s.trace[:s.trace.index(c[0])]
                cl = [p["name"] for p in m["params"] if (p["type"] or "").startswith("Class")]
                if len(cl) == 1:
                    Jc.pixel_type(m, before, c[0][4], c[0][2], cl[0], None)
                else:
                    Jc.und.append("image class")
        if not ps:
            Jc.und.append("no path")
    return Jc.verdict("wrapper/%s.new" % Jc.cls)


def fin(Jc):
    Jc.n += 1
    ms = [m for m in Jc.methods if m["name"] == "finalize" and m["body"]]
    anyc = json.dumps([m["body"] for m in Jc.methods if m["body"]])
    if not ms:
        if any('"%s"' % d in anyc for d in DESTROY) or "leaner" in anyc:
            Jc.und.append("not by finalize")
        else:
            Jc.hit(Jc.tree["line"], "the native object is never destroyed")
    for m in ms:
        for s, v in Jc.paths(m):
            d = [t for t in s.trace if t[0] == "native" and t[2] in DESTROY]
            if s.unknown:
                Jc.und.append(s.unknown)
            elif not d and not any(c for c, val in s.conds.items() if "nativePtr" in names_in(c)):
                Jc.hit(m["line"], "finalize returns without destroying the native object")
            elif len(d) > 1:
                Jc.hit(d[1][4], "finalize destroys the native object twice")
    return Jc.verdict("wrapper/%s.finalize" % Jc.cls)


def op(Jc, m, native):
    Jc.run_op(m, native)
    return Jc.verdict("wrapper/%s.%s" % (Jc.cls, m["name"]))


def callback(Jc, m):
    """addContour(id, externalIndex) records both and the internal ids that were transferred"""
    a, b = [("param", p["name"]) for p in m["params"]]
    for s, v in Jc.paths(m):
        Jc.n += 1
        if s.unknown:
            Jc.und.append(s.unknown)
            continue
        g = [t for t in s.trace if t[0] == "call" and t[1] == ("field", THIS, "storageContours")]
        if not g:
            Jc.hit(m["line"], "addContour adds no contour")
            continue
        w = {t[2]: t for t in s.trace if t[0] == "write" and t[1] != THIS}
        for f, want in (("id", a), ("externalIndex", b)):
            if f not in w:
                if any(t[0] == "call" and t[1][0] == "call" and (want in t[3]) for t in s.trace):
                    Jc.und.append(f)
                else:
                    Jc.hit(m["line"], "addContour does not record %s" % f)
            elif w[f][3] != want:
                if w[f][3][0] in ("param", "lit", "bin", "un"):
                    Jc.hit(w[f][4], "addContour records something else as %s" % f)
                else:
                    Jc.und.append(f)
        sp = ("field", THIS, "storagePoints")
        if not any(t[0] == "call" and (sp in t[3] or t[1] == sp) for t in s.trace):
            Jc.hit(m["line"], "addContour drops the internal ids")
        elif not any(t[0] == "call" and sp in t[3] and t[1][0] == "field" and t[1][2] == "internalIndexes" and t[2] == "setTo" for t in s.trace):
            Jc.und.append("internal ids")
    return Jc.verdict("wrapper/%s.addContour" % Jc.cls)


KIND = {"Extend": "EXTENDED", "Reflect": "REFLECT", "Wrap": "WRAP", "Value": "ZERO"}


def border(Jc, m):
    got = set()
    ps = Jc.paths(m)
    for s, v in ps:
        Jc.n += 1
        if s.unknown or not v or v[0] != "static" or not v[1].startswith("BorderType."):
            Jc.und.append(s.unknown or "value")
            continue
        y = v[1].split(".")[-1]
        got.add(y)
        kinds = set()
        zero = None
        for c, val in s.conds.items():
            if c[0] == "instanceof" and val:
                for k, x in KIND.items():
                    if k in c[2].split(".")[-1] or k == "Value" and "ImageBorderValue" in c[2]:
                        kinds.add(x)
            if c[0] == "bin" and c[1] == "EQUAL_TO" and "value" in names_in(c):
                zero = val and any(x == ("lit", "0") or x == ("lit", "0.0") for x in c[2:])
        if len(kinds) == 1:
            k = kinds.pop()
            if k != y:
                Jc.hit(m["line"], "a border of kind %s is reported as %s" % (k, y))
            elif k == "ZERO" and zero is not True:
                if zero is False:
                    Jc.hit(m["line"], "a constant border is reported as ZERO although its value is not zero")
                else:
                    Jc.hit(m["line"], "a constant border is reported as ZERO whatever its value is") if not any("value" in names_in(c) for c in s.conds) else Jc.und.append("value test")
        else:
            Jc.und.append("kind of border")
    if ps and not Jc.und:
        for k in ("EXTENDED", "REFLECT", "WRAP", "ZERO"):
            if k not in got:
                Jc.hit(m["line"], "no border is reported as %s" % k)
    return Jc.verdict("wrapper/%s.%s" % (Jc.cls, m["name"]))


def overrides(Jc, m):
    for s, v in Jc.paths(m):
        if s.unknown:
            Jc.und.append(s.unknown)
        for t in s.trace:
            if t[0] == "write" and t[3][0] == "ref" and t[2] in OVERRIDES:
                Jc.n += 1
                if t[3][1] in Jc.classes and t[3][1] != OVERRIDES[t[2]]:
                    Jc.hit(t[4], "%s is overridden by %s" % (t[2], t[3][1]))
    return Jc.verdict("wrapper/%s.initialize" % Jc.cls)


def delegates(Jc, m, field):
    for s, v in Jc.paths(m):
        Jc.n += 1
        f = ("field", THIS, field)
        c = [t for t in s.trace if t[0] == "call" and (t[1] == f or f in t[3])]
        if not c:
            if s.unknown or any(t[0] == "call" and field in names_in(t[1]) for t in s.trace) or v == f:
                Jc.und.append("access")
            else:
                Jc.hit(m["line"], "%s does not use %s" % (m["name"], field))
            continue
        for t in c:
            for p, x in zip(m["params"], t[3]):
                if x[0] == "lit" or x[0] == "param" and x != ("param", p["name"]) or x[0] in ("bin", "un"):
                    Jc.hit(t[4], "%s passes something else as %s" % (m["name"], p["name"]))
    return Jc.verdict("wrapper/%s.%s" % (Jc.cls, m["name"]))


def obligations(Ob, repo):
    classes = load(repo)
    obs = []
    if classes is None:
        return [Ob("wrapper/parse", lambda: {"status": "open", "detail": "the Java sources could not be parsed"})]
    for cls, t in classes.items():
        ms = [m for m in t["members"] if m["k"] == "METHOD"]
        nat = {m["name"] for m in ms if m["body"] is None}
        mk = lambda: J(classes, cls)
        if nat & set(INIT):
            obs.append(Ob("wrapper/%s.new" % cls, ctor, mk(), nat))
        if nat & set(DESTROY):
            obs.append(Ob("wrapper/%s.finalize" % cls, fin, mk()))
        for m in ms:
            if m["body"] is None:
                continue
            native = BY_CLASS.get(cls, {}).get(m["name"]) or (m["name"] == "process" and "nativeprocess" in nat and "nativeprocess") or None
            if native and native in nat:
                obs.append(Ob("wrapper/%s.%s" % (cls, m["name"]), op, mk(), m, native))
            elif m["name"] == "addContour" and len(m["params"]) == 2:
                obs.append(Ob("wrapper/%s.addContour" % cls, callback, mk(), m))
            elif m["name"] == "borderToType":
                obs.append(Ob("wrapper/%s.%s" % (cls, m["name"]), border, mk(), m))
            elif cls == "BoofCPP" and m["name"] == "initialize":
                obs.append(Ob("wrapper/%s.initialize" % cls, overrides, mk(), m))
            elif cls == "NativeChang2004" and m["name"] in ("loadContour", "writeContour"):
                obs.append(Ob("wrapper/%s.%s" % (cls, m["name"]), delegates, mk(), m, "packedPoints"))
            elif cls == "NativeChang2004" and m["name"] == "getContours":
                obs.append(Ob("wrapper/%s.%s" % (cls, m["name"]), delegates, mk(), m, "storageContours"))
    return obs
