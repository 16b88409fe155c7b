"""Agreement of Java declarations and native code."""
import re
from checks.common import *
from checks.c20 import short, method
from sa import jni, java
from sa.paths import *

TECHNIQUE = ("cross-language declaration analysis: Java native declarations against the signatures (debug types) of the exported functions, and the "
             "name/signature constants reaching every JNI lookup (constant propagation along all paths) against the Java declarations")
RULE = ("Every Java native method has an exported function with its JNI name and parameter types and vice versa; the name and signature constants of every "
        "GetFieldID/GetMethodID reach a field or method of the Java class of the object the ID is derived from; the ID is used on an object of that class with "
        "the accessor of its type, and calls pass arguments of the declared number and kind.")
NOTE = ("members of BoofCV and DDogleg classes, which are not in the repository, are taken from a table of their public API; lookups on classes outside "
        "repository and table are not decided")
LEVEL = "other"

# public API of the external Java classes (BoofCV, DDogleg) as far as the bridge may use it
IMG = {"width": "I", "height": "I", "stride": "I", "startIndex": "I", "subImage": "Z"}
EXT = {
    "boofcv/struct/ConfigLength": ({"length": "D", "fraction": "D"}, {}),
    "boofcv/struct/convolve/Kernel1D": ({"width": "I", "offset": "I"}, {}),
    "boofcv/struct/convolve/Kernel2D": ({"width": "I", "offset": "I"}, {}),
    "org/ddogleg/struct/GrowQueue_I32": ({"data": "[I", "size": "I"}, {"resize": ["(I)V"]}),
    "org/ddogleg/struct/FastQueue": ({"size": "I"}, {"resize": ["(I)V"], "get": ["(I)Ljava/lang/Object;"]}),
    "boofcv/struct/PackedSetsPoint2D_I32": ({"blockLength": "I", "blocks": "Lorg/ddogleg/struct/FastQueue;", "sets": "Lorg/ddogleg/struct/FastQueue;"}, {}),
    "boofcv/struct/ConnectRule": ({"FOUR": "Lboofcv/struct/ConnectRule;", "EIGHT": "Lboofcv/struct/ConnectRule;"}, {"ordinal": ["()I"]}),
    "boofcv/struct/image/GrayU8": (dict(IMG, data="[B"), {}),
    "boofcv/struct/image/GrayS32": (dict(IMG, data="[I"), {}),
    "boofcv/struct/image/GrayF32": (dict(IMG, data="[F"), {}),
    "boofcv/struct/image/GrayS16": (dict(IMG, data="[S"), {}),
    "boofcv/struct/image/ImageGray": (dict(IMG, data="*"), {}),
    "boofcv/struct/image/ImageBase": (dict(IMG, data="*"), {}),
}
KERNELS = ("boofcv/struct/convolve/Kernel1D", "boofcv/struct/convolve/Kernel2D")
ACC = {"Object": ("L", "["), "Boolean": "Z", "Byte": "B", "Char": "C", "Short": "S", "Int": "I", "Long": "J", "Float": "F", "Double": "D", "Void": "V"}


def jtype(classes, cls, nat, v):
    """JVM class name of an object value"""
    if v[0] == "param":
        k = int(v[1][1:])
        if k == 1:
            return cls.package.replace(".", "/") + "/" + cls.name
        if k - 2 < len(nat[1]):
            s = cls.sig(nat[1][k - 2][0])
            return s[1:-1] if s.startswith("L") else s
    if v[0] == "field" and v[2][0] == "fid" and v[2][3][0] == "str":
        s = v[2][3][1]
        return s[1:-1] if s.startswith("L") else s
    if v[0] == "jret" and v[4][0] == "mid" and v[4][3][0] == "str":
        r = java.sig_params(v[4][3][1])[1]
        return r[1:-1] if r and r.startswith("L") else r
    return None


def class_name(classes, cls, nat, v):
    """class an ID was looked up in"""
    if v[0] == "classof":
        return jtype(classes, cls, nat, v[1])
    if v[0] == "class" and v[1][0] == "str":
        return v[1][1]
    return None


def pixel_sig(p, k, mname):
    """array type of the image parameter k under the literals of a path (isInteger, bit counts), None when not determined"""
    isint = None
    bits = {}
    for c, pol in p.lits.items():
        if c[0] == "cmp" and c[1] == "eq" and c[2][0] == "cast":
            c = c[:2] + (c[2][2],) + c[3:]
        if c[0] == "cmp" and c[1] == "eq" and c[2][0] == "field" and c[2][2][0] == "fid" and c[2][1] == ("param", "p1", c[2][1][2]) and c[3][0] == "int":
            n = c[2][2][2][1]
            if n == "isInteger" and c[3][1] in (0, 1):
                isint = pol == bool(c[3][1])
            if n in ("inputBits", "outputBits") and pol:
                bits[n] = c[3][1]
    if isint is None:
        return None
    if not isint:
        return "[F"
    if mname in ("nativeHorizontal", "nativeVertical", "nativeConvolve") and k == 2:
        return {16: "[S", 32: "[I", 8: "[B"}.get(bits.get("outputBits"))
    return "[B"


def lookup(classes, cname, name, kind):
    """'*', signature(s), None = no such member, False = class unknown"""
    q = cname.replace("/", ".") if cname else None
    if q in classes:
        for c in java.supers(classes, classes[q]):
            if kind == "field" and name in c.fields:
                return c.fields[name][0]
            if kind == "method":
                r = [s for n, s, _ in c.methods if n == name]
                if r:
                    return r
            last = c
        return None if not last.super or last.imports.get(last.super, "").startswith("org.boofcpp") else False
    if cname in EXT:
        f, m = EXT[cname]
        if kind == "field":
            if cname in KERNELS and name == "data":
                return "*"
            return f.get(name)
        return m.get(name) if name in m else False if cname not in ("org/ddogleg/struct/GrowQueue_I32",) else m.get(name)
    return False


def lookups(en, classes, cls, nat, name):
    ps = jni.run_native(en, name)
    bad, sites = [], set()
    own = method(name)
    for p in ps:
        for e in p.events:
            if e.kind != "env":
                continue
            if e.name in ("GetFieldID", "GetStaticFieldID", "GetMethodID", "GetStaticMethodID"):
                c, n, s = e.args[:3]
                sites.add(e.loc)
                if n[0] != "str" or s[0] != "str":
                    continue
                cn = class_name(classes, cls, nat, c)
                kind = "field" if "Field" in e.name else "method"
                want = lookup(classes, cn, n[1], kind)
                if want is None:
                    bad.append((e, "%s %s looked up in %s does not exist" % (kind, n[1], cn)))
                elif want is False:
                    continue
                elif kind == "method":
                    if s[1] not in want:
                        bad.append((e, "method %s of %s has signature %s, not %s" % (n[1], cn, want[0], s[1])))
                else:
                    if want == "*":
                        want = None
                        v = c[1]
                        if v[0] == "param":
                            want = pixel_sig(p, int(v[1][1:]) - 2, own)
                            if cn in KERNELS and want in ("[B", "[S"):
                                want = "[I"
                            if cn in KERNELS and want is not None and want != "[F":
                                want = "[I"
                        if want is None:
                            if s[1][0] != "[":
                                bad.append((e, "field %s of %s is an array, not %s" % (n[1], cn, s[1])))
                            continue
                    if s[1] != want:
                        bad.append((e, "field %s of %s has type %s, not %s" % (n[1], cn, want, s[1])))
            mm = jni.GETF.match(e.name) or jni.SETF.match(e.name)
            if mm:
                sites.add(e.loc)
                fid = e.args[1]
                t = mm.group(2)
                if fid[0] == "fid" and fid[3][0] == "str":
                    s = fid[3][1]
                    if not s.startswith(ACC[t]):
                        bad.append((e, "field %s of type %s accessed with %s" % (fid[2][1], s, e.name)))
                    if bool(mm.group(1)) != (fid[4] == "GetStaticFieldID"):
                        bad.append((e, "static and instance access mixed up for field %s" % fid[2][1]))
                    same_class(classes, cls, nat, e, fid, bad)
            mm = jni.CALLM.match(e.name)
            if mm:
                sites.add(e.loc)
                mid = e.args[1]
                if mid[0] == "mid" and mid[3][0] == "str":
                    ps_, r = java.sig_params(mid[3][1])
                    if ps_ is None:
                        bad.append((e, "malformed signature %s" % mid[3][1]))
                        continue
                    if not r.startswith(ACC[mm.group(2)]):
                        bad.append((e, "method %s returns %s, called with %s" % (mid[2][1], r, e.name)))
                    got = e.cls[2:]
                    if len(got) != len(ps_):
                        bad.append((e, "method %s%s called with %d arguments" % (mid[2][1], mid[3][1], len(got))))
                    else:
                        for q, t in zip(ps_, got):
                            ok = {"J": t.k == "int" and t.a == 64, "D": t.k == "float" and t.a == 64, "F": t.k == "float"}.get(
                                q, t.k == "ptr" if q[0] in "L[" else t.k == "int" and t.a == 32)
                            if not ok:
                                bad.append((e, "argument of type %r passed for %s of method %s" % (t, q, mid[2][1])))
                    same_class(classes, cls, nat, e, mid, bad)
    base = {"leaves": len(ps), "sites": len(sites)}
    return verdicts(bad, base, name, cls)


def same_class(classes, cls, nat, e, fid, bad):
    """the ID comes from the class of the very object, or from a class of the same name"""
    c = fid[1]
    if c == ("classof", e.args[0]):
        return
    a = class_name(classes, cls, nat, c)
    b = jtype(classes, cls, nat, e.args[0]) if c[0] == "classof" else None
    if e.args[0] == c:
        return
    if a and b and a != b and b != "java/lang/Object":
        # a super class of the object's class is fine
        q = b.replace("/", ".")
        if q in classes and any((x.package + "." + x.name).replace(".", "/") == a for x in java.supers(classes, classes[q])):
            return
        bad.append((e, "ID of class %s used on an object of class %s" % (a, b)))


def verdicts(bad, base, name, cls):
    if not bad:
        return dict(base, status="proved", loc=None)
    out, seen = [], set()
    for e, why in bad:
        k = (str(e.loc), why)
        if k not in seen:
            seen.add(k)
            out.append(dict(base, status="refuted", loc=e.loc, detail=why, key="%s/%s" % (short(name), why.split(" has ")[0][:50].replace(" ", "-"))))
    return out[:6]


def declared(en, classes, cls, nat):
    name = java.native_name(cls, nat[0])
    sig = nat[4]
    cand = [n for n in (name, name + "__" + java.mangle("".join(java.sig_params(sig)[0]).replace("/", "."))) if n in en.fns]
    loc = (os.path.join(REPO, os.path.relpath(cls.path, REPO)), nat[5])
    if not cand:
        return {"status": "refuted", "loc": loc, "detail": "native method %s.%s has no native function %s" % (cls.name, nat[0], name)}
    f, m, d = en.fns[cand[0]]
    if "internal" in f.linkage:
        return {"status": "refuted", "loc": loc, "detail": "native function %s is not exported" % name}
    types = sub_types(d, f.dbg)
    if types is None:
        return {"status": "open", "detail": "no debug types"}
    ret, ps = types[0], types[1:]
    want = java.sig_params(sig)
    if len(ps) != len(want[0]) + 2:
        return {"status": "refuted", "loc": loc, "detail": "%s takes %d parameters, the declaration %s needs %d" % (name, len(ps), sig, len(want[0]) + 2)}
    K = {"Z": ("u", 8), "B": ("s", 8), "C": ("u", 16), "S": ("s", 16), "I": ("s", 32), "J": ("s", 64), "F": ("f", 32), "D": ("f", 64)}
    for k, (s, t) in enumerate(zip(want[0] + [want[1]], ps[2:] + [ret])):
        got = d.scalar(t) if t is not None else None
        exp = None if s == "V" else K.get(s, ("p", 64))
        if got != exp:
            return {"status": "refuted", "loc": loc, "detail": "%s: %s has native type %s, Java declares %s" % (
                name, "result" if k == len(want[0]) else "parameter %d" % k, got, s)}
    return {"status": "proved", "loc": loc}


def sub_types(d, dbg):
    """debug types of a function: result, parameters"""
    if dbg is None:
        return None
    t = d.ref(d.node(dbg), "type")
    n = d.ref(d.node(t), "types")
    txt = d.node(n)
    out = []
    for x in re.findall(r"!(\d+)|\bnull\b", txt[txt.index("{"):]):
        out.append(int(x) if x else None)
    return out


def exported(en, classes, name):
    for c in classes.values():
        for nat in c.natives:
            n = java.native_name(c, nat[0])
            if name == n or name.startswith(n + "__"):
                return {"status": "proved"}
    f, m, d = en.fns[name]
    mm = re.search(r"line: (\d+)", d.node(f.dbg)) if f.dbg is not None else None
    return {"status": "refuted", "loc": (d.file_of_scope(f.dbg), int(mm.group(1)) if mm else 0),
            "detail": "exported function %s belongs to no native method declared in Java" % name}


def obligations(ws, tier):
    with Tmp() as tmp:
        mods = jni.load(tmp, REPO)
    en = jni.make_engine(mods)
    classes = java.load(REPO)
    obs = []
    nat_of = {}
    for c in classes.values():
        for nat in c.natives:
            obs.append(Ob("declared/%s.%s" % (c.name, nat[0]), declared, en, classes, c, nat))
            nat_of[java.native_name(c, nat[0])] = (c, nat)
    for n in sorted(jni.natives(en)):
        obs.append(Ob("exported/" + short(n), exported, en, classes, n))
        k = n.split("__")[0]
        if k in nat_of:
            obs.append(Ob("lookups/" + short(n), lookups, en, classes, nat_of[k][0], nat_of[k][1], n))
    return obs
