"""The native bridge: IR of every translation unit under boofcpp-jni/src/main/cpp, all paths of every
exported native method, with the JNI environment modelled as an alphabet of events."""
import glob
import os
import re
import subprocess
from . import ir
from .paths import *

SRC = "boofcpp-jni/src/main/cpp"


def jni_include():
    for p in sorted(glob.glob("/usr/lib/jvm/*/include/jni.h")):
        d = os.path.dirname(p)
        if os.path.isdir(os.path.join(d, "linux")):
            return ["-I" + d, "-I" + d + "/linux"]
    raise RuntimeError("no jni.h")


def load(tmp, repo):
    mods = []
    inc = jni_include()
    procs = []
    for p in sorted(glob.glob(os.path.join(repo, SRC, "*.cpp"))):
        out = os.path.join(tmp, os.path.basename(p) + ".ll")
        cmd = ["/usr/bin/clang++-18", "-std=gnu++11", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fstandalone-debug", "-fno-discard-value-names",
               "-w", "-flto", "-fwhole-program-vtables", "-fvisibility=hidden", "-emit-llvm", "-S", "-I" + os.path.join(repo, "boofcpp/src/boofcv"),
               "-I" + os.path.join(repo, SRC), *inc, p, "-o", out + ".raw"]
        procs.append((p, out, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for p, out, pr in procs:
        o, _ = pr.communicate()
        if pr.returncode:
            raise RuntimeError("front end failed on %s:\n%s" % (p, o[-2000:]))
        r = subprocess.run(["/usr/bin/opt-18", "-S", "-passes=sroa,simplifycfg", out + ".raw", "-o", out], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("opt failed on %s:\n%s" % (p, r.stderr[-2000:]))
        os.unlink(out + ".raw")
        m = ir.parse_module(open(out).read())
        mods.append((m, ir.Debug(m)))
    return mods


INLINE_CLS = re.compile(r"^boofcv::(Gray|ImageBase|Interleaved|Planar)<[^>]*>::|^boofcv::Image(Base)?::|^ImageAndInfo<|^JImageInfo")


def make_engine(mods):
    files = {}

    def inline(name, e):
        f, m, d = e
        if name not in files:
            dm = demangle(name)
            ok = False
            if f.dbg is not None:
                fl = d.file_of_scope(f.dbg) or ""
                ok = SRC in fl
            if not ok and "JNIEnv_" not in dm:
                ok = bool(INLINE_CLS.match(dm)) or "ImageAndInfo<" in dm.split("(")[0] or "JImageInfo" in dm.split("(")[0]
                if not ok:
                    # implicitly generated members have no source scope of their own
                    ok = dm.split("(")[0].startswith(("boofcv::Gray<", "boofcv::ImageBase", "boofcv::ImageGray"))
            files[name] = ok
        return files[name]

    return Engine(mods, inline, model=env_model, may_throw=lambda n: not n.startswith(("_Zn", "_Zd", "__cxa", "virtual")) or n.startswith("virtual"))


GETF = re.compile(r"^Get(Static)?(Object|Boolean|Byte|Char|Short|Int|Long|Float|Double)Field$")
SETF = re.compile(r"^Set(Static)?(Object|Boolean|Byte|Char|Short|Int|Long|Float|Double)Field$")
CALLM = re.compile(r"^Call(Static|Nonvirtual)?(Object|Boolean|Byte|Char|Short|Int|Long|Float|Double|Void)Method[VA]?$")
ACQ = re.compile(r"^Get(PrimitiveArrayCritical|(Boolean|Byte|Char|Short|Int|Long|Float|Double)ArrayElements|StringUTFChars|StringChars|StringCritical)$")
REL = re.compile(r"^Release(PrimitiveArrayCritical|(Boolean|Byte|Char|Short|Int|Long|Float|Double)ArrayElements|StringUTFChars|StringChars|StringCritical)$")


def env_model(en, p, ev, ins):
    dm = demangle(ev.name)
    mm = re.match(r"^JNIEnv_::(\w+)\(", dm)
    if not mm:
        return False, None
    n = mm.group(1)
    a = ev.args[1:]
    r = None
    ev.kind, ev.name, ev.args = "env", n, tuple(a)
    ev.cls = [x[0] for x in ins.args[1:]]
    if n == "GetObjectClass":
        r = ("classof", a[0])
    elif n == "FindClass":
        r = ("class", a[0])
    elif n in ("GetFieldID", "GetStaticFieldID"):
        r = ("fid", a[0], a[1], a[2], n)
    elif n in ("GetMethodID", "GetStaticMethodID"):
        r = ("mid", a[0], a[1], a[2], n)
    elif GETF.match(n):
        r = ("field", a[0], a[1], p.epoch)
        for e in reversed(p.events):        # the value stored last, if it is known
            if e.kind == "env" and SETF.match(e.name) and e.args[:2] == (a[0], a[1]):
                r = e.args[2]
                break
            if e.kind == "env" and CALLM.match(e.name):
                break
    elif CALLM.match(n):
        p.epoch += 1
        r = ("jret", n, p.epoch) + tuple(a) if "Void" not in n else None
    elif ACQ.match(n):
        p.n += 1
        r = ("ptr", ("acquired", p.n, n, a[0]), 0)
    elif n in ("ExceptionCheck", "ExceptionOccurred"):
        r = ("pending", p.n, len(p.events)) if n == "ExceptionCheck" else ("int", 0)
    elif n == "GetArrayLength":
        r = ("len", a[0])
    elif ins.ty is not None and ins.ty.k != "void":
        r = ("env", n, len(p.events)) + tuple(a)
    ev.ret = r
    if n not in ("ExceptionCheck", "ExceptionDescribe"):
        p.events.append(ev)
    return True, r


def natives(en):
    """exported native methods: name -> function"""
    return {n: e for n, e in en.fns.items() if n.startswith("Java_")}


def run_native(en, name):
    f, m, d = en.fns[name]
    args = []
    pn = []
    for k, (v, t, at) in enumerate(f.params):
        nm = v.lstrip("%").strip('"')
        pn.append(nm)
        args.append(("param", "p%d" % k, nm))
    return en.run(name, args)
