"""JNI typestate: acquire/release of Java arrays on every path of every native method."""
import os
from checks.common import *
from sa import jni
from sa.paths import *

TECHNIQUE = ("typestate dataflow over the LLVM IR of the JNI sources along all control-flow paths including exception edges, "
             "helpers inlined interprocedurally")
RULE = ("Every Get*ArrayElements / GetPrimitiveArrayCritical is matched on every normally returning path by exactly one Release of the same "
        "kind with the same array and pointer; arrays holding outputs are not released with JNI_ABORT; acquired memory is not used after its "
        "release; no JNI call other than critical get/release happens while a critical array is held.")
NOTE = ("paths that leave the native method by a C++ exception are outside the property; loop bodies are taken at most once, library functions "
        "are opaque and may throw")
LEVEL = "other"

# Java parameters (position after env, this) whose pixels are results of the native method
OUTPUTS = {"nativeprocess": [1], "native_process": [1], "nativeMean": [1], "nativeGaussian": [1], "nativehorizontal": [2], "nativevertical": [2],
           "nativeHorizontal": [2], "nativeVertical": [2], "nativeConvolve": [2], "nativeconvolve": [2]}
CRITICAL = ("PrimitiveArrayCritical", "StringCritical")


def method(name):
    """Java method name of a mangled native function (no overload suffix)"""
    t = name.split("__")[0]
    return t[len("Java_"):].replace("_1", "\0").split("_")[-1].replace("\0", "_")


def base_obj(v):
    """(object, field name) of a field value"""
    if v[0] == "field" and v[2][0] == "fid":
        return v[1], v[2][2][1] if v[2][2][0] == "str" else None
    return None, None


def acquired_in(v):
    """acquire tokens a value is derived from by address arithmetic"""
    while True:
        if v[0] == "ptr":
            v = v[1]
        elif v[0] == "idx":
            v = v[1]
        elif v[0] == "acquired":
            return v
        else:
            return None


def check_path(p, name, f):
    held = {}
    released = {}
    bad = []
    outs = OUTPUTS.get(method(name), [])
    for e in p.events:
        if e.kind == "env" and jni.ACQ.match(e.name):
            held[e.ret[1]] = (e.name[3:], e.args[0], e)
            continue
        if e.kind == "env" and jni.REL.match(e.name):
            kind, arr, ptr = e.name[7:], e.args[0], e.args[1]
            tok = ptr[1] if ptr[0] == "ptr" and ptr[2] == 0 else None
            if ptr == ("int", 0):
                bad.append((e, "%s of an array that is not held on this path (null pointer)" % e.name))
                continue
            if tok in released:
                bad.append((e, "%s of memory that was released before" % e.name))
                continue
            if tok not in held:
                bad.append((e, "%s of a pointer that was not acquired" % e.name))
                continue
            k, a, ae = held.pop(tok)
            released[tok] = e
            if k != kind:
                bad.append((e, "array acquired with Get%s is released with %s" % (k, e.name)))
            if a != arr:
                bad.append((e, "pointer of array %s released for array %s" % (show(a)[:60], show(arr)[:60])))
            mode = e.args[2] if len(e.args) > 2 else ("int", 0)
            o, fld = base_obj(a)
            if o is not None and o[0] == "param" and int(o[1][1:]) - 2 in outs and mode == ("int", 2):
                bad.append((e, "the output array is released with JNI_ABORT, its pixels are not copied back"))
            if mode == ("int", 1):
                held[tok] = (k, a, ae)
                del released[tok]
            continue
        if p.end == "abort":
            continue
        # uses
        for a in e.args:
            t = acquired_in(a) if isinstance(a, tuple) else None
            if t is not None and t in released:
                bad.append((e, "memory of a Java array is used after its release"))
            elif isinstance(a, tuple) and a[0] == "ptr" and e.kind in ("call", "store") and e.mem is not None and not e.name.startswith("_ZNSt"):
                # an image object passed on: its pixel pointer
                if not is_dtor(e.name):
                    for (rg, o), v in e.mem.items():
                        if rg == a[1] and isinstance(o, int) and isinstance(v, tuple):
                            t = acquired_in(v)
                            if t is not None and t in released:
                                bad.append((e, "an image whose Java array was released is used"))
                                break
        if e.kind == "delete" and e.args and acquired_in(e.args[0]) is not None:
            bad.append((e, "memory of a Java array is freed by delete"))
        if e.kind == "env" and any(k in CRITICAL for k, _, _ in held.values()):
            bad.append((e, "JNI function %s is called while a critical array is held" % e.name))
    if p.end == "return":
        for tok, (k, a, ae) in held.items():
            bad.append((ae, "array %s acquired here is never released on a path that returns" % show(a)[:80]))
    if p.end == "abort" and not any(e.kind == "threw" for e in p.events):
        for tok, (k, a, ae) in held.items():
            bad.append((ae, "array %s acquired here is still held when the program is terminated, though nothing it called had failed" % show(a)[:80]))
    return bad


def is_dtor(name):
    return "::~" in demangle(name)


def one(en, name):
    f, m, d = en.fns[name]
    ps = jni.run_native(en, name)
    n_acq = 0
    bad = []
    for p in ps:
        n_acq += sum(1 for e in p.events if e.kind == "env" and jni.ACQ.match(e.name))
        if p.end in ("return", "abort"):
            for e, why in check_path(p, name, f):
                threw = [x for x in p.events if x.kind == "threw"]
                cond = ", after an exception thrown by %s" % demangle(threw[0].name).split("(")[0][:80] if threw else ""
                bad.append((e, why + cond))
    base = {"functions": len({e.func for p in ps for e in p.events}), "leaves": len(ps), "sites": n_acq}
    if bad:
        seen, out = set(), []
        for e, why in bad:
            k = (str(e.loc), why)
            if k in seen:
                continue
            seen.add(k)
            out.append(dict(base, status="refuted", loc=e.loc, detail=why, key="%s/%s" % (short(name), why.split(" array ")[0][:40].replace(" ", "-"))))
        return out[:6]
    return dict(base, status="proved", loc=None)


def short(name):
    return name[len("Java_org_boofcpp_"):]


def obligations(ws, tier):
    import tempfile
    with Tmp() as tmp:
        mods = jni.load(tmp, REPO)
    en = jni.make_engine(mods)
    return [Ob(short(n), one, en, n) for n in sorted(jni.natives(en))]
