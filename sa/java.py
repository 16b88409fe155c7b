"""Declarations of the Java half of the bridge: classes, super classes, fields, methods (signatures only)."""
import glob
import os
import re

SRC = "boofcpp-jni/src/main/java"
PRIM = {"boolean": "Z", "byte": "B", "char": "C", "short": "S", "int": "I", "long": "J", "float": "F", "double": "D", "void": "V"}
JAVA_LANG = {"Object", "String", "Class", "Throwable", "RuntimeException", "Integer", "Exception"}


def strip_comments(s):
    out, i, n = [], 0, len(s)
    while i < n:
        c = s[i]
        if s.startswith("//", i):
            j = s.find("\n", i)
            i = n if j < 0 else j
        elif s.startswith("/*", i):
            j = s.find("*/", i + 2)
            j = n if j < 0 else j + 2
            out.append("\n" * s.count("\n", i, j))
            i = j
        elif c in "\"'":
            j = i + 1
            while j < n and s[j] != c:
                j += 2 if s[j] == "\\" else 1
            out.append(c + c)
            i = j + 1
        else:
            out.append(c)
            i += 1
    return "".join(out)


class JClass:
    def __init__(self):
        self.fields, self.methods, self.natives, self.imports, self.tparams = {}, [], [], {}, {}

    def sig(self, t):
        """JVM signature of a source type"""
        t = re.sub(r"<.*>", "", t).strip()
        dims = t.count("[]") + (1 if t.endswith("...") else 0)
        t = t.replace("[]", "").replace("...", "").strip()
        if t in PRIM:
            s = PRIM[t]
        elif t in self.tparams:
            s = self.sig(self.tparams[t])
        elif "." in t:
            s = "L" + t.replace(".", "/") + ";"
        elif t in self.imports:
            s = "L" + self.imports[t].replace(".", "/") + ";"
        elif t in JAVA_LANG:
            s = "Ljava/lang/%s;" % t
        else:
            s = "L" + (self.package + "." + t).replace(".", "/") + ";"
        return "[" * dims + s


def params(s):
    out, d, cur = [], 0, ""
    for c in s + ",":
        if c in "<(":
            d += 1
        if c in ">)":
            d -= 1
        if c == "," and d == 0:
            if cur.strip():
                cur = re.sub(r"\bfinal\b|@\w+", "", cur).strip()
                mm = re.match(r"^(.*?)\s+(\w+)\s*((?:\[\])*)$", cur, re.S)
                out.append((mm.group(1) + mm.group(3), mm.group(2)) if mm else (cur, "?"))
            cur = ""
        else:
            cur += c
    return out


MOD = r"(?:(?:public|protected|private|static|final|native|abstract|synchronized|volatile|transient)\s+)"


def parse(path):
    raw = open(path).read()
    s = strip_comments(raw)
    c = JClass()
    c.path = path
    c.package = re.search(r"\bpackage\s+([\w.]+)\s*;", s).group(1)
    for m in re.finditer(r"\bimport\s+(?:static\s+)?([\w.]+)\s*;", s):
        c.imports[m.group(1).split(".")[-1]] = m.group(1)
    m = re.search(r"\b(?:class|interface|enum)\s+(\w+)\s*(<(?:[^<>]|<[^<>]*>)*>)?\s*(?:extends\s+([\w.]+)\s*(?:<[^{]*?>)?)?[^{]*\{", s)
    if not m:
        return None
    c.name = m.group(1)
    if m.group(2):
        for t in re.finditer(r"(\w+)\s+extends\s+(\w+)|(\w+)", m.group(2)[1:-1]):
            if t.group(1):
                c.tparams[t.group(1)] = t.group(2)
            elif t.group(3) not in c.tparams.values():
                c.tparams.setdefault(t.group(3), "Object")
    c.super = m.group(3)
    body = s[m.end():]
    # members at depth 0
    d, cur, start = 0, "", m.end()
    for k, ch in enumerate(body):
        if ch == "{":
            if d == 0:
                member(c, cur, s[:start].count("\n") + 1)
                cur = ""
            d += 1
        elif ch == "}":
            d -= 1
            if d < 0:
                break
            cur, start = "", m.end() + k + 1
        elif d == 0:
            if ch == ";":
                member(c, cur, s[:start].count("\n") + 1 + cur[:len(cur) - len(cur.lstrip())].count("\n"))
                cur, start = "", m.end() + k + 1
            else:
                cur += ch
    return c


def member(c, t, line):
    t = re.sub(r"@\w+(\([^)]*\))?", " ", t).strip()
    if not t:
        return
    mods = re.match(r"^%s*" % MOD, t + " ").group(0)
    rest = t[len(mods):].strip() if len(mods) <= len(t) else ""
    rest = re.sub(r"^<[^>]*>\s*", "", rest)
    m = re.match(r"^([\w.]+(?:\s*<(?:[^<>]|<[^<>]*>)*>)?(?:\s*\[\])*)\s+(\w+)\s*\((.*)\)\s*(?:throws\s+[\w.,\s]+)?$", rest, re.S)
    if m:
        ps = params(m.group(3))
        sig = "(" + "".join(c.sig(p) for p, _ in ps) + ")" + c.sig(m.group(1))
        mods = mods.split()
        c.methods.append((m.group(2), sig, mods))
        if "native" in mods:
            c.natives.append((m.group(2), ps, m.group(1), "static" in mods, sig, line))
        return
    m = re.match(r"^([\w.]+(?:\s*<(?:[^<>]|<[^<>]*>)*>)?(?:\s*\[\])*)\s+(\w+)\s*(=.*)?$", rest, re.S)
    if m and m.group(1) not in ("return", "throw", "package", "import"):
        c.fields[m.group(2)] = (c.sig(m.group(1)), "static" in mods.split())


def load(repo):
    out = {}
    for p in sorted(glob.glob(os.path.join(repo, SRC, "**", "*.java"), recursive=True)):
        c = parse(p)
        if c:
            out[c.package + "." + c.name] = c
    return out


def supers(classes, c):
    """the class and its super classes inside the repository"""
    while c is not None:
        yield c
        n = c.super
        if not n:
            return
        q = c.imports.get(n, c.package + "." + n)
        c = classes.get(q)


def mangle(s):
    out = ""
    for ch in s:
        if ch == ".":
            out += "_"
        elif ch == "_":
            out += "_1"
        elif ch == ";":
            out += "_2"
        elif ch == "[":
            out += "_3"
        elif ch.isalnum() and ord(ch) < 128:
            out += ch
        else:
            out += "_0%04x" % ord(ch)
    return out


def native_name(c, method):
    return "Java_" + mangle(c.package + "." + c.name) + "_" + mangle(method)


def sig_params(sig):
    """parameter signatures and the result of a method signature"""
    m = re.match(r"^\((.*)\)(.+)$", sig)
    if not m:
        return None, None
    return re.findall(r"\[*(?:L[^;]*;|[ZBCSIJFD])", m.group(1)), m.group(2)
