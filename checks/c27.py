"""Native methods perform the operation they stand for and deliver its results; the Java wrappers call them properly."""
import re
from checks.common import *
from checks.c20 import short, method, base_obj
from checks.c22 import OPS, FIELDS, HANDLES, World, pk, strip, is_handle, verdict, paths, demangle, dtor_class, flag, evalterm
from sa import jni, java, javaast
from sa.paths import *

TECHNIQUE = ("path-sensitive effect analysis over the JNI sources' LLVM IR (on every normally returning path the operation, the stored handle, the released "
             "object and the delivered results), and abstract interpretation of the Java wrappers' syntax trees (calls, their order and the provenance of arguments)")
RULE = ("Every normally returning path of a native method without a raised exception: constructors store a new object in the handle, destructors delete the "
        "handle's object, operations call their library function, after the border was given the image, setters store; contour results: every contour is "
        "announced with its id and external index after its internal ids were copied, all blocks and sets are resized and copied.  Java: wrappers set the "
        "image type and the output's shape before the native call, which gets the wrapper's arguments in place; constructors pass theirs to the native "
        "constructor after the pixel type is known; finalizers destroy.")
NOTE = ("copy loops are decided in their first iteration and their bound; behaviour of BoofCV's own classes is outside; paths that leave by an exception are "
        "outside")
LEVEL = "other"


def failed(p):
    """an exception is pending or was caught on this path"""
    if any(e.kind in ("threw", "throw") or e.kind == "env" and e.name in ("ThrowNew", "Throw", "FatalError") for e in p.events):
        return True
    for c, v in p.lits.items():
        if c[0] == "pending" and v:
            return True
        if c[0] == "cmp" and c[1] == "eq" and c[2][0] == "pending" and c[3] == ("int", 0) and not v:
            return True
    return False


def last(p):
    return p.events[-1] if p.events else None


def good(W, name):
    return [p for p in paths(W.en, name) if not failed(p)]


def opname(e):
    return re.sub(r"<.*", "", demangle(e.name).split("(")[0]).split(" ")[-1]


def nothing(W, name):
    return {"status": "open", "detail": "no normally returning path found"}


def res(bad, und, n, key):
    base = {"sites": n}
    if bad:
        return verdict(bad, base, key)
    if und or not n:
        return dict(base, status="open", detail="not decided: %s" % sorted(set(map(str, und)))[:4])
    return dict(base, status="proved")


def stores_handle(W, name):
    bad, und, n = [], [], 0
    for p in good(W, name):
        n += 1
        st = [e for e in p.events if e.kind == "env" and e.name == "SetLongField" and e.args[1][0] == "fid" and e.args[1][2] == ("str", "nativePtr")]
        other = [e for e in p.events if e.kind == "env" and e.name.startswith("Set") and e.name.endswith("Field") and e not in st]
        if not st:
            if other:
                und.append("stored elsewhere")
            else:
                bad.append((last(p), "%s returns without storing the new object in the handle" % method(name)))
            continue
        v = strip(st[-1].args[2])
        o = st[-1].args[0]
        if v[0] == "int":
            bad.append((st[-1], "%s leaves the constant %s in the handle" % (method(name), v[1])))
        elif v[0] != "ptr" or v[1][0] != "heap":
            und.append(show(v))
        elif o[0] == "param" and pk(o) != -1:
            bad.append((st[-1], "%s stores the handle in another object" % method(name)))
        elif any(e.kind == "delete" and e.args and e.args[0] == ("ptr", v[1], 0) for e in p.events):
            bad.append((st[-1], "%s stores an object that it deletes" % method(name)))
    return res(bad, und, n, "performs/" + short(name))


def frees_handle(W, name):
    bad, und, n = [], [], 0
    for p in good(W, name):
        n += 1
        d = [e for e in p.events if (e.kind == "delete" or e.kind == "call") and e.args and isinstance(e.args[0], tuple) and is_handle(e.args[0])]
        k = [e for e in d if e.kind == "delete" or e.name.startswith("virtual:") or dtor_class(demangle(e.name))]
        null = any(c[0] == "cmp" and c[1] == "eq" and v and c[3] == ("int", 0) and (is_handle(("ptr", c[2], 0)) or is_handle(c[2])) for c, v in p.lits.items())
        if not k and not null:
            bad.append((last(p), "%s returns without deleting the object of the handle" % method(name)))
    return res(bad, und, n, "performs/" + short(name))


def filters(W, name):
    bad, und, n = [], [], 0
    for p in good(W, name):
        n += 1
        c = [e for e in p.events if e.kind == "call" and e.args and isinstance(e.args[0], tuple) and is_handle(e.args[0]) and len(e.args) >= 3]
        if not c:
            bad.append((last(p), "%s returns without running the filter%s" % (method(name), "" if flag(p) is None else " when isInteger is %s" % flag(p))))
            continue
        for e in c:
            if not e.name.startswith("virtual:") and not demangle(e.name).split("(")[0].endswith("::process"):
                und.append(demangle(e.name)[:40])
    return res(bad, und, n, "performs/" + short(name))


def operation(W, name):
    fn, want = OPS[method(name)]
    bad, und, n = [], [], 0
    for p in good(W, name):
        n += 1
        c = [e for e in p.events if e.kind == "call" and opname(e) == fn]
        if not c:
            near = [e for e in p.events if e.kind == "call" and opname(e).rsplit("::", 1)[0] == fn.rsplit("::", 1)[0] and len(e.args) >= 2
                    and fn.rsplit("::", 1)[0].split("::")[-1] != opname(e).split("::")[-1]]
            pub = [e for e in near if opname(e).split("::")[-1] in ("horizontal", "vertical", "convolve", "mean", "gaussian")]
            if pub:
                bad.append((pub[0], "%s calls %s instead of %s" % (method(name), opname(pub[0]), fn)))
            elif near:
                und.append(opname(near[0]))
            else:
                bad.append((last(p), "%s returns without calling %s" % (method(name), fn)))
            continue
        for e in c:
            for k, w in enumerate(want):
                if not w.startswith("border") or k >= len(e.args):
                    continue
                b = strip(e.args[k])
                before = p.events[:p.events.index(e)]
                s = [x for x in before if x.kind == "call" and "::setImage(" in demangle(x.name) and len(x.args) == 2]
                if not s:
                    if any(x.kind == "call" and x.name.startswith("virtual:") for x in before):
                        und.append("virtual call before")
                    else:
                        bad.append((e, "%s is called with a border that was given no image" % fn))
                    continue
    return res(bad, und, n, "performs/" + short(name))


def sets(W, name):
    bad, und, n = [], [], 0
    for p in good(W, name):
        n += 1
        if method(name) == "setConnectRule":
            st = [e for e in p.events if e.kind == "call" and "::setConnectRule(" in demangle(e.name)]
        else:
            st = [e for e in p.events if e.kind == "store" and e.args[0][0] == "ptr" and is_handle(("ptr", e.args[0][1], 0))]
            if not st and any(e.kind == "call" and e.args and isinstance(e.args[0], tuple) and is_handle(e.args[0]) for e in p.events):
                und.append("set by a member function")
                continue
        if not st:
            bad.append((last(p), "%s returns without storing its argument" % method(name)))
    return res(bad, und, n, "performs/" + short(name))


# ---------------------------------------------------------------- results of the contour tracer
def field_name(v):
    return base_obj(v)[1] if isinstance(v, tuple) else None


def mid_name(v):
    return v[2][1] if v[0] == "mid" and v[2][0] == "str" else None


def member(v, base, off):
    """v is the member at the offset of the object base: True/False, None = something else"""
    v = strip(v)
    if v[0] == "int":
        return False
    if v[0] == "mem":
        return v[1] == base and v[2] == off if v[1] == base else None
    return None


def contours(W, name):
    """what the native method hands to Java"""
    out = {}
    O = lambda c, m: W.offset(c, m)
    C = {m: O("ContourPacked", m) for m in ("id", "externalIndex", "internalIndexes")}
    S = {m: O("PackedSetInfo", m) for m in ("block", "offset", "size")}
    L = {m: O("LinearContourLabelChang2004", m) for m in ("contours", "packedPoints")}
    Kx = {m: next((mem[m][0] for l in W.lay.values() for nm, mem in l.values() if nm.startswith("PackedSet<") and m in mem), None)
          for m in ("blocks", "_size_of_block", "_number_of_blocks", "set_info")}
    if None in list(C.values()) + list(S.values()) + list(L.values()) + list(Kx.values()):
        return {"status": "open", "detail": "layout not found"}
    bad, und, n = [], [], 0
    seen_add = seen_block = seen_set = 0
    for p in good(W, name):
        filled = None
        res_ = {}
        for i, e in enumerate(p.events):
            if e.kind == "call" and e.args and e.args[0][0] == "ptr" and e.args[0][2] == C["internalIndexes"] and e.args[0][1][0] in ("ret", "mem"):
                filled = e.args[0][1]
            if e.kind != "env" or not e.name.startswith("Call"):
                continue
            m = mid_name(e.args[1]) if len(e.args) > 1 else None
            if m == "addContour":
                n += 1
                seen_add += 1
                a = [strip(x) for x in e.args[2:4]]
                b = next((x[1] for x in a if x[0] == "mem"), None)
                if len(a) == 2 and b is not None:
                    for x, w in zip(a, ("id", "externalIndex")):
                        r = member(x, b, C[w])
                        if r is False:
                            bad.append((e, "addContour gets something else than the contour's %s" % w))
                        elif r is None:
                            und.append("addContour " + w)
                    if filled != b:
                        if filled is None:
                            bad.append((e, "a contour is announced before its internal ids are copied"))
                        else:
                            und.append("ids of another contour")
                elif len(a) == 2 and all(x[0] == "int" for x in a):
                    bad.append((e, "addContour gets constants"))
                else:
                    und.append("addContour")
                filled = None
            elif m == "resize":
                f = field_name(e.args[0])
                if f in ("blocks", "sets"):
                    res_[f] = (i, strip(e.args[2]))
                    n += 1
            elif m == "get":
                f = field_name(e.args[0])
                if f in ("blocks", "sets") and f not in res_:
                    bad.append((e, "elements of %s are used before it is resized" % f))
            elif m == "set" and len(e.args) == 5:
                n += 1
                seen_set += 1
                a = [strip(x) for x in e.args[2:5]]
                b = next((x[1] for x in a[1:] if x[0] == "mem"), None)
                if b is None:
                    if all(x[0] == "int" for x in a):
                        bad.append((e, "a set's position is set to constants"))
                    else:
                        und.append("set")
                    continue
                for k, w in ((1, "size"), (2, "block")):
                    r = member(a[k], b, S[w])
                    if r is False:
                        bad.append((e, "a set's %s is not the one of the packed set" % w))
                    elif r is None:
                        und.append(w)
                v = lin(a[0])
                if v == {("mem", b, S["offset"]): 2}:
                    pass
                elif v is not None and all(k is None or k[0] == "mem" and k[1] == b for k in v):
                    bad.append((e, "a set's offset is not twice the one of the packed set (two integers for each point)"))
                else:
                    und.append("offset")
        for f in ("blocks", "sets"):
            if f not in res_:
                if any(e.kind == "call" and "opy" in e.name for e in p.events):
                    und.append(f)
                else:
                    bad.append((last(p), "the list of %s is not resized for the new result" % f))
            else:
                i, v = res_[f]
                if f == "blocks":
                    if v[0] == "mem" and v[2] in [L["packedPoints"] + x for x in Kx.values()] and is_handle(("ptr", v[1], 0)):
                        if v[2] != L["packedPoints"] + Kx["_number_of_blocks"]:
                            bad.append((p.events[i], "blocks is resized to something else than the number of blocks"))
                    elif v[0] == "int":
                        bad.append((p.events[i], "blocks is resized to a constant"))
                    else:
                        und.append("blocks")
                elif v[0] == "int":
                    bad.append((p.events[i], "sets is resized to a constant"))
        # points of a block: stores through an acquired block
        for e in p.events:
            if e.kind == "store" and e.args[0][0] == "ptr" and e.args[0][1][0] == "acquired" and len(e.args) > 1:
                v = strip(e.args[1])
                arr = e.args[0][1]
                if strip(arr[3])[0] == "jret":
                    n += 1
                    seen_block += 1
                    if v[0] == "mem" and v[2] in (0, 4) and e.args[0][2] in (0, 4):
                        if v[2] != e.args[0][2]:
                            bad.append((e, "the coordinates of a point are copied to each other's place"))
                    elif v[0] == "int":
                        bad.append((e, "a constant is copied into the block"))
                    else:
                        und.append("point copy")
        # internal ids: after a resize the copy runs over the new number of ids
        rs = [i for i, e in enumerate(p.events) if e.kind == "env" and len(e.args) > 2 and mid_name(e.args[1]) == "resize" and field_name(e.args[0]) == "storagePoints"]
        if rs:
            n += 1
            a = strip(p.events[rs[0]].args[2])
            if a[0] == "int":
                bad.append((p.events[rs[0]], "the list of internal ids is resized to a constant"))
            cp = [e for e in p.events[rs[0]:] if e.kind == "env" and e.name.startswith("Get") and ("Critical" in e.name or e.name.endswith("Elements"))
                  and field_name(strip(e.args[0])) == "data" and field_name(strip(e.args[0])[1]) == "storagePoints"]
            old = [c for c in p.lits if c[0] == "cmp" and c[1] in ("slt", "ult") and c[2] == ("int", 0) and field_name(strip(c[3])) == "size"]
            new = [c for c in p.lits if c[0] == "cmp" and c[1] in ("slt", "ult") and c[2] == ("int", 0) and strip(c[3]) == a]
            if cp and old and not new:
                bad.append((cp[0], "after the resize only the previous number of internal ids is copied"))
            grown = [c for c, v in p.lits.items() if v and c[0] == "cmp" and c[1] in ("ult", "slt") and strip(c[2])[0] == "len" and strip(c[3]) == a]
            if cp and grown:
                j = p.events.index(cp[0])
                if not any(e.kind == "env" and e.name == "GetObjectField" and field_name(e.args[0]) == "storagePoints" for e in p.events[rs[0]:j]):
                    bad.append((cp[0], "the internal ids are copied into the array from before the resize"))
    if not seen_add:
        q = good(W, name)
        if q:
            bad.append((last(q[0]), "no contour is ever announced to the Java object"))
    if not seen_block and good(W, name):
        und.append("no block copy seen")
    if not seen_set and good(W, name):
        und.append("no set seen")
    return res(bad, und, n, "delivers/" + short(name))


def lin(t):
    """linear form of a term: {atom: coefficient}, None when not linear"""
    t = strip(t)
    if t[0] == "int":
        return {None: t[1]} if t[1] else {}
    if t[0] == "op" and t[1] in ("add", "sub", "mul", "shl"):
        a, b = lin(t[2]), lin(t[3])
        if a is None or b is None:
            return None
        if t[1] in ("mul", "shl"):
            if set(b) <= {None}:
                a, b = b, a
                if t[1] == "shl":
                    return {k: v << a.get(None, 0) for k, v in b.items()}
            elif t[1] == "shl":
                return None
            if not set(a) <= {None}:
                return None
            c = a.get(None, 0)
            return {k: c * v for k, v in b.items() if c * v}
        s = 1 if t[1] == "add" else -1
        o = dict(a)
        for k, v in b.items():
            o[k] = o.get(k, 0) + s * v
        return {k: v for k, v in o.items() if v}
    return {t: 1}


def obligations(ws, tier):
    with Tmp() as tmp:
        mods = jni.load(tmp, REPO)
    en = jni.make_engine(mods)
    classes = java.load(REPO)
    W = World(en, classes)
    obs = []
    nats = jni.natives(en)
    for c in classes.values():
        for n in [n for n in sorted(nats) if n.startswith(java.native_name(c, ""))]:
            mt = method(n)
            key = "performs/" + short(n)
            if mt in ("nativeinit", "native_init"):
                obs.append(Ob(key, stores_handle, W, n))
            elif mt in ("nativedestroy", "native_destroy"):
                obs.append(Ob(key, frees_handle, W, n))
            elif mt == "nativeprocess":
                obs.append(Ob(key, filters, W, n))
            elif mt in OPS:
                obs.append(Ob(key, operation, W, n))
                if mt == "native_process":
                    obs.append(Ob("delivers/" + short(n), contours, W, n))
            elif mt.startswith("set"):
                obs.append(Ob(key, sets, W, n))
    obs += javaast.obligations(Ob, REPO)
    return obs
