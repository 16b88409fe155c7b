"""Operations share no mutable global state: effect analysis over the IR of every translation unit."""
import glob
import os
import re
import tempfile
from checks.common import *
from sa import ir, jni
from sa.paths import demangle, demangle_all
TECHNIQUE = "effect analysis (custom lint) over the LLVM IR of every translation unit and of instantiations of every class template"
RULE = ("For every variable with static storage duration that the library or the native bridge defines (namespace scope, static member, function "
        "static, thread_local): no store, non-const member call, or call passing its address as a mutable argument, outside its own initialisation.  "
        "For every function: no call of a C library function with hidden state.  For every const member function: no store into the object itself "
        "(mutable members).  A refuted obligation names the variable and the function and line that changes it.")
NOTE = ("Sound for state reached through the variable's own name inside library code; templates are analysed in the instantiations the drivers and the "
        "bridge create; state behind a static pointer is found at the place the static is written.")
ASSUMPTIONS = ["clang's IR represents the source", "standard library functions not in the list of stateful functions keep no state across calls"]
LEVEL = "other"
DRIVERS = []
STATEFUL = {"rand", "srand", "random", "srandom", "drand48", "lrand48", "strtok", "time", "clock", "localtime", "gmtime", "asctime", "ctime",
            "setlocale", "getenv", "setenv", "putenv", "fesetround", "fesetenv", "rand_r" if False else "mrand48", "gettimeofday", "clock_gettime",
            "_ZNSt6chrono3_V212steady_clock3nowEv", "_ZNSt6chrono3_V212system_clock3nowEv", "_ZNSt13random_device9_M_getvalEv"}
SYM = re.compile(r'@("[^"]*"|[-\w.$]+)')


def globals_of(mod, dbg):
    """name -> (type node text, file, line, const) of variables the repository defines"""
    out = {}
    for n, t in mod.globals.items():
        if " alias " in " " + t or re.search(r"\bexternal\b|\bconstant\b", t.split("=")[0].split(",")[0].split("{")[0].split("[")[0]):
            continue
        m = re.search(r"!dbg !(\d+)", t)
        if not m:
            continue
        e = dbg.node(int(m.group(1)))
        v = dbg.ref(e, "var") if "Expression(" in e else int(m.group(1))
        vt = dbg.node(v)
        f = dbg.file_of_scope(v) or ""
        if not inrepo(f):
            continue
        ty = dbg.ref(vt, "type")
        tt = dbg.node(ty) if ty is not None else ""
        const = "DW_TAG_const_type" in tt
        if "DW_TAG_array_type" in tt:
            b = dbg.ref(tt, "baseType")
            const = b is not None and "DW_TAG_const_type" in dbg.node(b)
        out[n] = (dbg.field(vt, "name") or n, f, int(dbg.field(vt, "line") or 0), const, "thread_local" in t)
    return out


def inrepo(f):
    return bool(f) and (os.path.abspath(f).startswith(REPO + "/") or "/drivers/" in f or f.startswith("boofcpp"))


def init_blocks(fn):
    """blocks that run under a static's initialisation guard"""
    out = set()
    for b in fn.blocks.values() if isinstance(fn.blocks, dict) else fn.blocks:
        if b.name == "init" or re.match(r"init\d*$", b.name):
            todo = [b]
            while todo:
                x = todo.pop()
                if x.name in out:
                    continue
                out.add(x.name)
                if any("__cxa_guard_release" in i.text or "__cxa_guard_abort" in i.text for i in x.insts):
                    continue
                for s in x.succs:
                    y = fn.blocks[s] if isinstance(s, str) else s
                    todo.append(y)
    return out


def blocks(fn):
    return list(fn.blocks.values()) if isinstance(fn.blocks, dict) else list(fn.blocks)


def writes(mod, dbg, fn, names):
    """(global, inst, why) where fn may change one of the globals"""
    out = []
    initf = fn.name.startswith(("__cxx_global_var_init", "_GLOBAL__sub_I", "__tls_init", "_ZTH"))
    ib = init_blocks(fn)
    der = {}
    work = True
    rounds = 0
    while work and rounds < 30:
        work = False
        rounds += 1
        for b in blocks(fn):
            for i in b.insts:
                if i.op in ("getelementptr", "bitcast", "phi", "select", "addrspacecast") or i.op == "call" and "llvm.threadlocal.address" in i.text:
                    if i.name and i.name not in der:
                        g = refs(i.text.split("=", 1)[-1], names, der)
                        if g:
                            der[i.name] = g
                            work = True
    for b in blocks(fn):
        if initf or b.name in ib:
            continue
        for i in b.insts:
            t = re.sub(r", ![a-z.]+ !\d+", "", i.text)
            if i.op == "store":
                m = re.match(r"\s*store (?:atomic |volatile )*(.*), ptr (.*?)(?:, align \d+)?(?: [a-z_]+)?(?:, align \d+)?\s*$", t)
                val, ptr = (m.group(1), m.group(2)) if m else (t, t)
                g = refs(ptr, names, der)
                if g:
                    out.append((g, i, "is stored to"))
                g = refs(val, names, der)
                if g:
                    out.append((g, i, "has its address stored away"))
            elif i.op in ("atomicrmw", "cmpxchg"):
                g = refs(t, names, der)
                if g:
                    out.append((g, i, "is changed atomically"))
            elif i.op in ("call", "invoke"):
                if "llvm.dbg" in t or "llvm.threadlocal" in t or "llvm.lifetime" in t:
                    continue
                m = re.search(r"(?:call|invoke)\b[^@%]*?(@(?:\"[^\"]*\"|[-\w.$]+)|%[-\w.]+)\((.*)$", t)
                if not m:
                    continue
                cal = m.group(1).strip("@").strip('"')
                args = split_args(m.group(2))
                for k, a in enumerate(args):
                    g = refs(a, names, der)
                    if not g or names[g][3]:
                        continue
                    if cal.startswith(("llvm.memcpy", "llvm.memmove")) and k == 1:
                        continue
                    if cal.startswith("__cxa_guard") or cal in ("__cxa_atexit", "__cxa_thread_atexit"):
                        continue
                    if "readonly" in a or "readnone" in a:
                        continue
                    if k == 0 and cal.startswith("_ZNK") or const_arg(cal, k):
                        continue
                    out.append((g, i, "is passed to %s" % demangle(cal).split("(")[0][:80]))
            elif i.op == "ret":
                g = refs(t, names, der)
                if g and not names[g][3]:
                    out.append((g, i, "is returned by reference or pointer"))
    return out


def const_arg(cal, k):
    """parameter k of the callee is a const reference/pointer or passed by value"""
    d = demangle(cal)
    if "(" not in d:
        return False
    depth, i = 0, d.rfind(")")
    j = i
    while j >= 0:
        if d[j] == ")":
            depth += 1
        elif d[j] == "(":
            depth -= 1
            if depth == 0:
                break
        j -= 1
    ps = split_args(d[j + 1:i] + ")")
    member = "::" in d[:j] and not d.startswith(("std::operator", "operator"))
    cands = [k] if not member else [k, k - 1]
    return all(0 <= c < len(ps) and ("const&" in ps[c] or "const*" in ps[c]) for c in cands if c >= 0) and bool(ps)


def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "([{<":
            d += 1
        elif ch in ")]}>":
            if d == 0:
                break
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def refs(text, names, der):
    for m in SYM.finditer(text):
        n = m.group(1).strip('"')
        if n in names:
            return n
    for m in re.finditer(r"%(?:\"[^\"]*\"|[-\w.$]+)", text):
        if m.group(0) in der:
            return der[m.group(0)]
    return None


def selfstores(fn):
    """stores of a const member function into its own object"""
    if not fn.name.startswith("_ZNK") or not fn.params:
        return []
    this = fn.params[0][1] if isinstance(fn.params[0], tuple) else None
    this = "%this" if this is None or not str(this).startswith("%") else this
    der = {this: this}
    out = []
    for rnd in range(4):
        for b in blocks(fn):
            for i in b.insts:
                if i.op in ("getelementptr", "bitcast", "phi", "select") and i.name and i.name not in der:
                    m = re.findall(r"ptr (%(?:\"[^\"]*\"|[-\w.$]+))", i.text) + (re.findall(r"\[ (%[-\w.$]+),", i.text) if i.op == "phi" else [])
                    if any(x in der for x in m):
                        der[i.name] = this
    for b in blocks(fn):
        for i in b.insts:
            if i.op == "store":
                m = re.search(r", ptr (%(?:\"[^\"]*\"|[-\w.$]+))", i.text)
                if m and m.group(1) in der:
                    out.append(i)
            if i.op in ("atomicrmw", "cmpxchg") and any(x in der for x in re.findall(r"%[-\w.$]+", i.text.split("=", 1)[-1])):
                out.append(i)
    return out


def analyse(mods):
    """one result per variable, one per function group"""
    res = {}
    nfun = 0
    calls = []
    selfs = []
    seen = set()
    for mod, dbg in mods:
        names = globals_of(mod, dbg)
        for n, (nm, f, line, const, tls) in names.items():
            key = "variable/%s@%s:%d" % (nm.strip('"'), os.path.basename(f), line)
            res.setdefault(key, {"key": key, "status": "proved", "loc": (f, line), "bad": []})
        ks = {n: "variable/%s@%s:%d" % (v[0].strip('"'), os.path.basename(v[1]), v[2]) for n, v in names.items()}
        for fn in mod.functions.values():
            f = dbg.file_of_scope(fn.dbg) if fn.dbg is not None else None
            own = inrepo(f or "")
            if names and (own or any(("@" + n) in i.text for n in names for b in blocks(fn) for i in b.insts)):
                for g, i, why in writes(mod, dbg, fn, names):
                    res[ks[g]]["bad"].append((dbg.loc(i.dbg), why, demangle(fn.name)))
            if not own:
                continue
            if (f, fn.name) not in seen:
                seen.add((f, fn.name))
                nfun += 1
                for b in blocks(fn):
                    for i in b.insts:
                        if i.op in ("call", "invoke"):
                            m = re.search(r"@(\"[^\"]*\"|[-\w.$]+)\(", i.text)
                            if m and m.group(1).strip('"') in STATEFUL:
                                calls.append((dbg.loc(i.dbg), m.group(1), demangle(fn.name)))
                for i in selfstores(fn):
                    selfs.append((dbg.loc(i.dbg), demangle(fn.name)))
    out = []
    for k, r in sorted(res.items()):
        bad = r.pop("bad")
        r["functions"] = nfun
        if bad:
            r.update(status="refuted", loc=bad[0][0] or r["loc"], detail="static variable %s in %s" % (bad[0][1], bad[0][2][:120]))
        out.append(r)
    for k, bad, txt in (("calls", calls, "calls %s, which keeps hidden state"), ("const-functions", selfs, None)):
        r = {"key": k, "status": "proved", "functions": nfun, "leaves": nfun, "loc": None}
        if bad:
            r.update(status="refuted", loc=bad[0][0], detail=(bad[0][2][:120] + " calls " + bad[0][1]) if k == "calls" else
                     "const function %s stores into its object" % bad[0][1][:120])
        out.append(r)
    return out


def unit(kind, path):
    with Tmp() as tmp:
        if kind == "jni":
            mods = jni.load(tmp, REPO)
        else:
            o = os.path.join(tmp, "u.ll")
            ir.compile_ll(path, o, passes="sroa")
            m = ir.parse_module(open(o).read())
            mods = [(m, ir.Debug(m))]
    out = analyse(mods)
    base = kind if kind == "jni" else os.path.basename(path)
    for r in out:
        r["key"] = base + "/" + r["key"]
    return out


def obligations(ws, tier):
    obs = [Ob("jni", unit, "jni", None)]
    for p in sorted(glob.glob(os.path.join(REPO, "boofcpp/src/boofcv/*.cpp"))) + sorted(glob.glob(os.path.join(VERIF, "drivers", "*.cpp"))):
        obs.append(Ob(os.path.basename(p), unit, "tu", p))
    return obs
