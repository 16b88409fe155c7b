"""Textual LLVM IR (opaque pointers, LLVM 18) reader."""
import re
import subprocess
import os
import hashlib


class Inst:
    __slots__ = ("op", "name", "ty", "args", "dbg", "text", "extra", "block")

    def __repr__(self):
        return self.text


class Block:
    __slots__ = ("name", "insts", "preds", "succs", "idx")

    def __repr__(self):
        return "%" + self.name


class Function:
    __slots__ = ("name", "params", "ret", "blocks", "order", "module", "dbg", "linkage", "demangled", "attrs", "varargs", "_cfg", "_defs")

    def __repr__(self):
        return self.name


class Module:
    pass


# --------------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a")

    def __init__(self, k, a=None):
        self.k, self.a = k, a

    def __repr__(self):
        return "%s%s" % (self.k, "" if self.a is None else repr(self.a))


def split_top(s, sep=","):
    out, depth, cur, q = [], 0, [], False
    for ch in s:
        if q:
            cur.append(ch)
            if ch == '"':
                q = False
            continue
        if ch == '"':
            q = True
        elif ch in "([{<":
            depth += 1
        elif ch in ")]}>":
            depth -= 1
        elif ch == sep and depth == 0:
            out.append("".join(cur).strip())
            cur = []
            continue
        cur.append(ch)
    t = "".join(cur).strip()
    if t:
        out.append(t)
    return out


class P_:
    """type parser over a string, returns (Ty, rest)"""


def parse_type(s):
    s = s.lstrip()
    m = re.match(r"i(\d+)", s)
    if m:
        t, r = Ty("int", int(m.group(1))), s[m.end():]
    elif s.startswith("ptr"):
        t, r = Ty("ptr"), s[3:]
        m = re.match(r"\s+addrspace\(\d+\)", r)
        if m:
            r = r[m.end():]
    elif s.startswith("void"):
        t, r = Ty("void"), s[4:]
    elif s.startswith("float"):
        t, r = Ty("float", 32), s[5:]
    elif s.startswith("double"):
        t, r = Ty("float", 64), s[6:]
    elif s.startswith("x86_fp80"):
        t, r = Ty("float", 80), s[8:]
    elif s.startswith("metadata"):
        t, r = Ty("metadata"), s[8:]
    elif s.startswith("token"):
        t, r = Ty("token"), s[5:]
    elif s.startswith("label"):
        t, r = Ty("label"), s[5:]
    elif s[0] == "%":
        m = re.match(r'%("(?:[^"\\]|\\.)*"|[-\w.$:]+)', s)
        t, r = Ty("named", m.group(1).strip('"')), s[m.end():]
    elif s[0] in "[<" and not s.startswith("<{"):
        close = "]" if s[0] == "[" else ">"
        m = re.match(r"[\[<]\s*(\d+)\s+x\s+", s)
        e, r = parse_type(s[m.end():])
        r = r.lstrip()
        assert r[0] == close, s
        t, r = Ty("array" if close == "]" else "vector", (int(m.group(1)), e)), r[1:]
    elif s[0] == "{" or s.startswith("<{"):
        packed = s.startswith("<{")
        r = s[2:] if packed else s[1:]
        fs = []
        r = r.lstrip()
        while not r.startswith("}"):
            f, r = parse_type(r)
            fs.append(f)
            r = r.lstrip()
            if r.startswith(","):
                r = r[1:].lstrip()
        r = r[1:]
        if packed:
            r = r[1:]
        t = Ty("struct", (fs, packed))
    elif s.startswith("opaque"):
        t, r = Ty("opaque"), s[6:]
    else:
        raise ValueError("type? " + s[:80])
    # function type suffix
    r2 = r.lstrip()
    if r2.startswith("(") :
        # find the matching paren; function types only appear in call instructions
        d = 0
        for i, ch in enumerate(r2):
            if ch == "(":
                d += 1
            elif ch == ")":
                d -= 1
                if d == 0:
                    break
        inner = r2[1:i]
        if not re.search(r"[%@]|\bnoundef\b", inner) or inner.strip().endswith("..."):
            return Ty("fn", (t, inner)), r2[i + 1:]
    return t, r


ATTR = re.compile(r"^\s*(?:noundef|nonnull|signext|zeroext|nocapture|readonly|readnone|writeonly|noalias|returned|inreg|immarg|"
                  r"dead_on_unwind|writable|swiftself|nest|noext|"
                  r"align \d+|allocalign|allocptr|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|"
                  r"(?:sret|byval|byref|elementtype|inalloca|preallocated)\((?:[^()]|\([^()]*\))*\)|nofpclass\([^)]*\)|"
                  r"range\([^)]*\)|captures\([^)]*\))(?=\s|$)")


def strip_attrs(s):
    at = []
    while True:
        m = ATTR.match(s)
        if not m:
            return s.strip(), at
        at.append(m.group(0).strip())
        s = s[m.end():]


class Layout:
    def __init__(self, mod):
        self.mod = mod
        self.cache = {}

    def resolve(self, t):
        while t.k == "named":
            t = self.mod.types.get(t.a, Ty("opaque"))
        return t

    def size_align(self, t):
        k = repr(t)
        r = self.cache.get(k)
        if r is None:
            r = self._sa(t)
            self.cache[k] = r
        return r

    def _sa(self, t):
        if t.k == "int":
            n = max(1, (t.a + 7) // 8)
            a = 1
            while a < n:
                a *= 2
            return (a, min(a, 16)) if n not in (1, 2, 4, 8) else (n, n)
        if t.k == "ptr":
            return 8, 8
        if t.k == "float":
            return {32: (4, 4), 64: (8, 8), 80: (16, 16)}[t.a]
        if t.k == "named":
            return self.size_align(self.resolve(t))
        if t.k in ("array", "vector"):
            s, a = self.size_align(t.a[1])
            return s * t.a[0], a
        if t.k == "struct":
            offs, size, al = self.struct(t)
            return size, al
        return 0, 1

    def struct(self, t):
        fs, packed = t.a
        off, al, offs = 0, 1, []
        for f in fs:
            s, a = self.size_align(f)
            if packed:
                a = 1
            off = (off + a - 1) // a * a
            offs.append(off)
            off += s
            al = max(al, a)
        size = (off + al - 1) // al * al
        return offs, size, al

    def size(self, t):
        return self.size_align(t)[0]


INST_RE = re.compile(r'^\s+(?:(%(?:"[^"]*"|[-\w.$]+))\s*=\s*)?(.*)$')


def parse_module(text):
    m = Module()
    m.types, m.functions, m.globals, m.md, m.declares, m.aliases = {}, {}, {}, {}, {}, {}
    lines = text.split("\n")
    i, n = 0, len(lines)
    while i < n:
        l = lines[i]
        if l.startswith("define "):
            j = i + 1
            while lines[j] != "}":
                j += 1
            f = parse_function(l, lines[i + 1:j], m)
            m.functions[f.name] = f
            i = j + 1
            continue
        if l.startswith("declare "):
            mm = re.search(r'@("[^"]*"|[-\w.$]+)\s*\(', l)
            if mm:
                m.declares[mm.group(1).strip('"')] = l
        elif l.startswith("%"):
            mm = re.match(r'%("(?:[^"\\]|\\.)*"|[-\w.$:]+) = type (.*)$', l)
            if mm:
                m.types[mm.group(1).strip('"')] = parse_type(mm.group(2))[0]
        elif l.startswith("@"):
            mm = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)$', l)
            if mm:
                m.globals[mm.group(1).strip('"')] = mm.group(2)
        elif l.startswith("!"):
            mm = re.match(r'!(\d+) = (.*)$', l)
            if mm:
                m.md[int(mm.group(1))] = mm.group(2)
        i += 1
    for n, d in list(m.globals.items()):
        mm = re.search(r'\balias\b.*@("[^"]*"|[-\w.$]+)\s*(?:,|$)', d)
        if mm:
            m.aliases[n] = mm.group(1).strip('"')
    for n in m.aliases:
        y = n
        for _ in range(5):
            y = m.aliases.get(y, y)
        if y in m.functions and n not in m.functions:
            m.functions[n] = m.functions[y]
    m.layout = Layout(m)
    return m


def parse_function(head, body, mod):
    f = Function()
    f.module = mod
    mm = re.search(r'@("[^"]*"|[-\w.$]+)\(', head)
    f.name = mm.group(1).strip('"')
    # parameters
    k = mm.end()
    d = 1
    while d:
        ch = head[k]
        if ch == "(":
            d += 1
        elif ch == ")":
            d -= 1
        k += 1
    ps = split_top(head[mm.end():k - 1])
    f.params = []
    f.varargs = False
    for p in ps:
        if p == "...":
            f.varargs = True
            continue
        t, r = parse_type(p)
        r, at = strip_attrs(r)
        f.params.append((r.strip(), t, at))
    f.attrs = head[k:]
    md = re.search(r"!dbg !(\d+)", head)
    f.dbg = int(md.group(1)) if md else None
    pre = head[:mm.start()]
    f.linkage = pre
    f.ret = None
    f.blocks = {}
    f.order = []
    cur = None
    first = True
    for l in body:
        if not l.strip() or l.lstrip().startswith(";"):
            continue
        bm = re.match(r'^("[^"]*"|[-\w.$]+):', l)
        if bm:
            cur = Block()
            cur.name = bm.group(1).strip('"')
            cur.insts, cur.preds, cur.succs = [], [], []
            f.blocks[cur.name] = cur
            f.order.append(cur)
            first = False
            continue
        if cur is None:
            cur = Block()
            cur.name = "0" if not f.params else str(len(f.params))
            cur.insts, cur.preds, cur.succs = [], [], []
            f.blocks[cur.name] = cur
            f.order.append(cur)
        # continuation lines (switch, invoke, landingpad clauses)
        if l.startswith("          ") or l.startswith("    ") and (cur.insts and (cur.insts[-1].startswith("@@") or True) and not re.match(r"^  \S", l)) or l.strip() == "]":
            cur.insts[-1] = cur.insts[-1] + " " + l.strip()
            continue
        cur.insts.append(l)
    for b in f.order:
        b.insts = [parse_inst(t, b) for t in b.insts]
        t = b.insts[-1]
        if t.op == "br":
            b.succs = t.args[1:] if len(t.args) == 3 else [t.args[0]]
        elif t.op == "switch":
            b.succs = [t.extra["default"]] + [x for _, x in t.extra["cases"]]
        elif t.op == "invoke":
            b.succs = [t.extra["normal"], t.extra["unwind"]]
        else:
            b.succs = []
    for b in f.order:
        for s in dict.fromkeys(b.succs):
            f.blocks[s].preds.append(b.name)
    return f


def _lbl(s):
    mm = re.search(r'label %("[^"]*"|[-\w.$]+)', s)
    return mm.group(1).strip('"')


def parse_inst(line, block):
    try:
        return parse_inst1(line, block)
    except (ValueError, IndexError, AttributeError, KeyError):
        ins = Inst()
        ins.block = block
        ins.text = line.strip()
        m = re.match(r"^\s+(?:(%(?:\"[^\"]*\"|[-\w.$]+))\s*=\s*)?(\S+)", line)
        ins.name, op = m.group(1), m.group(2)
        if op in ("br", "switch", "invoke", "ret", "phi"):
            raise
        ins.op, ins.args, ins.extra, ins.ty, ins.dbg = "unsupported", [], {}, None, None
        return ins


def parse_inst1(line, block):
    ins = Inst()
    ins.block = block
    ins.text = line.strip()
    md = re.search(r", !dbg !(\d+)", line)
    ins.dbg = int(md.group(1)) if md else None
    s = re.sub(r"(?:,?\s+![\w.]+ !\d+)+\s*$", "", line)
    s = re.sub(r"\s#\d+\s*$", "", s)
    m = INST_RE.match(s)
    ins.name, rest = m.group(1), m.group(2)
    rest = re.sub(r"^(?:tail|musttail|notail)\s+", "", rest)
    op = rest.split(None, 1)[0]
    ins.op = op
    r = rest[len(op):].strip()
    ins.extra = {}
    ins.args = []
    ins.ty = None
    if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
              "fadd", "fsub", "fmul", "fdiv", "frem"):
        while True:
            mm = re.match(r"(nuw|nsw|exact|disjoint|fast|nnan|ninf|nsz|arcp|contract|afn|reassoc)\s+", r)
            if not mm:
                break
            ins.extra[mm.group(1)] = True
            r = r[mm.end():]
        ins.ty, r = parse_type(r)
        ins.args = split_top(r)
    elif op == "fneg":
        r = re.sub(r"^(?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc)\s+)*", "", r)
        ins.ty, r = parse_type(r)
        ins.args = [r.strip()]
    elif op in ("icmp", "fcmp"):
        r = re.sub(r"^(?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|samesign)\s+)*", "", r)
        pred, r = r.split(None, 1)
        ins.extra["pred"] = pred
        ins.ty, r = parse_type(r)
        ins.args = split_top(r)
    elif op in ("zext", "sext", "trunc", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "ptrtoint",
                "inttoptr", "bitcast"):
        r = re.sub(r"^(?:(?:nneg|nuw|nsw)\s+)*", "", r)
        t, r = parse_type(r)
        a, to = r.rsplit(" to ", 1)
        ins.extra["from"] = t
        ins.ty = parse_type(to)[0]
        ins.args = [a.strip()]
    elif op == "alloca":
        r = re.sub(r"^inalloca\s+", "", r)
        ps = split_top(r)
        ins.ty = parse_type(ps[0])[0]
        ins.args = []
        for p in ps[1:]:
            if not p.startswith("align"):
                t, v = parse_type(p)
                ins.args = [(t, v.strip())]
    elif op == "load":
        r = re.sub(r"^(?:atomic\s+)?(?:volatile\s+)?", "", r)
        ins.ty, r = parse_type(r)
        ps = split_top(r)
        ps = [p for p in ps if p]
        ins.args = [re.sub(r"\s+(?:syncscope\S+\s+)?(?:unordered|monotonic|acquire|release|acq_rel|seq_cst)$", "", parse_type(ps[0])[1].strip())]
    elif op == "store":
        r = re.sub(r"^(?:atomic\s+)?(?:volatile\s+)?", "", r)
        ps = split_top(r)
        t, v = parse_type(ps[0])
        ins.ty = t
        ins.args = [v.strip(), re.sub(r"\s+(?:unordered|monotonic|release|seq_cst)$", "", parse_type(ps[1])[1].strip())]
    elif op == "getelementptr":
        r = re.sub(r"^(?:(?:inbounds|nuw|nusw)\s+)*", "", r)
        ins.ty, r = parse_type(r)
        ps = split_top(r)
        ps = [p for p in ps if p]
        ins.args = []
        for p in ps:
            t, v = parse_type(p)
            ins.args.append((t, v.strip()))
    elif op == "phi":
        ins.ty, r = parse_type(r)
        for a in split_top(r):
            a = a.strip()[1:-1]
            v, b = a.rsplit(",", 1)
            ins.args.append((v.strip(), b.strip().lstrip("%").strip('"')))
    elif op == "select":
        ps = split_top(r)
        ins.args = []
        for p in ps:
            p = re.sub(r"^(?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc)\s+)*", "", p)
            t, v = parse_type(p)
            ins.args.append(v.strip())
            ins.ty = t
    elif op == "br":
        if r.startswith("label"):
            ins.args = [_lbl(r)]
        else:
            ps = split_top(r)
            ins.args = [parse_type(ps[0])[1].strip(), _lbl(ps[1]), _lbl(ps[2])]
    elif op == "switch":
        head, tail = r.split("[", 1)
        ps = split_top(head)
        ins.ty, v = parse_type(ps[0])
        ins.args = [v.strip()]
        ins.extra["default"] = _lbl(ps[1])
        cs = re.findall(r'i\d+ (-?\d+), label %("[^"]*"|[-\w.$]+)', tail)
        ins.extra["cases"] = [(int(c), l.strip('"')) for c, l in cs]
    elif op == "ret":
        if r.startswith("void"):
            ins.args = []
        else:
            ins.ty, v = parse_type(r)
            ins.args = [v.strip()]
    elif op in ("call", "invoke"):
        parse_call(ins, r)
    elif op in ("extractvalue", "insertvalue"):
        ps = split_top(r)
        ins.ty, v = parse_type(ps[0])
        ins.args = [v.strip()] + ps[1:]
    elif op in ("unreachable", "resume", "landingpad", "fence", "freeze", "va_arg", "atomicrmw", "cmpxchg",
                "extractelement", "insertelement", "shufflevector"):
        ins.args = [r]
        if op == "freeze":
            ins.ty, v = parse_type(r)
            ins.args = [v.strip()]
        elif op == "resume":
            ins.ty, v = parse_type(r)
            ins.args = [v.strip()]
    return ins


def parse_call(ins, r):
    while True:
        m = re.match(r"(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|noundef|signext|zeroext|noalias|nonnull|ccc|fastcc|"
                     r"align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|range\([^)]*\))\s+", r)
        if not m:
            break
        r = r[m.end():]
    t, r = parse_type(r)
    if t.k == "fn":
        t = t.a[0]
    ins.ty = t
    r = r.strip()
    m = re.match(r'(@(?:"[^"]*"|[-\w.$]+)|%(?:"[^"]*"|[-\w.$]+)|asm [^(]*)\(', r)
    if not m:
        ins.extra["callee"] = "?"
        return
    callee = m.group(1)
    if callee.startswith("@"):
        callee = "@" + callee[1:].strip('"')
    ins.extra["callee"] = callee
    k = m.end()
    d = 1
    q = False
    while d:
        ch = r[k]
        if ch == '"':
            q = not q
        if not q:
            if ch == "(":
                d += 1
            elif ch == ")":
                d -= 1
        k += 1
    ins.args = []
    for a in split_top(r[m.end():k - 1]):
        if a.startswith("metadata"):
            ins.args.append((Ty("metadata"), a, []))
            continue
        ty, v = parse_type(a)
        v, at = strip_attrs(v)
        ins.args.append((ty, v, at))
    tail = r[k:]
    if ins.op == "invoke":
        mm = re.search(r'to label %("[^"]*"|[-\w.$]+)\s+unwind label %("[^"]*"|[-\w.$]+)', tail)
        ins.extra["normal"] = mm.group(1).strip('"')
        ins.extra["unwind"] = mm.group(2).strip('"')


# --------------------------------------------------------------------- debug info
class Debug:
    def __init__(self, mod):
        self.mod = mod
        self._file = {}

    def node(self, i):
        return self.mod.md.get(i, "")

    def field(self, text, name):
        m = re.search(r"\b%s: (![0-9]+|\"(?:[^\"\\]|\\.)*\"|[-\w.]+)" % name, text)
        return m.group(1) if m else None

    def ref(self, text, name):
        v = self.field(text, name)
        return int(v[1:]) if v and v.startswith("!") else None

    def file_of_scope(self, i, depth=0):
        if i in self._file:
            return self._file[i]
        t = self.node(i)
        r = None
        fi = self.ref(t, "file")
        if t.startswith("!DIFile") or "!DIFile(" in t:
            r = self.field(t, "filename").strip('"')
        elif fi is not None:
            r = (self.field(self.node(fi), "filename") or "").strip('"')
        else:
            sc = self.ref(t, "scope")
            if sc is not None and depth < 30:
                r = self.file_of_scope(sc, depth + 1)
        self._file[i] = r
        return r

    def loc(self, i):
        """(file, line) of a DILocation"""
        if i is None:
            return None
        t = self.node(i)
        if "!DILocation(" not in t:
            return None
        line = self.field(t, "line")
        sc = self.ref(t, "scope")
        return (self.file_of_scope(sc) if sc is not None else None, int(line) if line else 0)

    def scalar(self, i, depth=0):
        """(kind, bits) of a debug type, through typedefs; None when not scalar"""
        if i is None or depth > 12:
            return None
        t = self.node(i)
        if "!DIBasicType(" in t:
            n = int(self.field(t, "size") or 0)
            e = self.field(t, "encoding") or ""
            k = "f" if "float" in e else "u" if "unsigned" in e or "boolean" in e else "s"
            return (k, n)
        if "DW_TAG_pointer_type" in t or "DW_TAG_reference_type" in t:
            return ("p", 64)
        if "!DIDerivedType(" in t:
            return self.scalar(self.ref(t, "baseType"), depth + 1)
        return None

    def type_name(self, i, depth=0):
        if i is None or depth > 12:
            return None
        t = self.node(i)
        if "!DICompositeType(" in t:
            return (self.field(t, "identifier") or self.field(t, "name") or '""').strip('"')
        if "!DIBasicType(" in t:
            return self.field(t, "name").strip('"')
        if "DW_TAG_pointer_type" in t:
            return (self.type_name(self.ref(t, "baseType"), depth + 1) or "void") + "*"
        return self.type_name(self.ref(t, "baseType"), depth + 1)

    def struct_members(self):
        """{mangled identifier or name: {member: (offset_bytes, size_bytes)}} for composite types"""
        out = {}
        for i, t in self.mod.md.items():
            if "!DICompositeType(" in t and ("DW_TAG_class_type" in t or "DW_TAG_structure_type" in t):
                name = self.field(t, "name")
                if not name:
                    continue
                name = name.strip('"')
                el = self.ref(t, "elements")
                if el is None:
                    continue
                mem, bases = {}, []
                for e in re.findall(r"!(\d+)", self.node(el)):
                    et = self.node(int(e))
                    if "DW_TAG_member" in et:
                        off = int(self.field(et, "offset") or 0) // 8
                        size = int(self.field(et, "size") or 0) // 8
                        mem[self.field(et, "name").strip('"') if self.field(et, "name") else "?"] = (off, size, self.type_name(self.ref(et, "baseType")))
                    elif "DW_TAG_inheritance" in et:
                        bases.append((self.ref(et, "baseType"), int(self.field(et, "offset") or 0) // 8))
                ident = (self.field(t, "identifier") or '""').strip('"')
                out[i] = (name, ident, mem, bases)
        res = {}

        def members(i):
            name, ident, mem, bases = out[i]
            r = {}
            for b, o in bases:
                # base may be a typedef chain
                while b is not None and b not in out:
                    b = self.ref(self.node(b), "baseType")
                if b is not None:
                    for k, (off, sz, tn) in members(b).items():
                        r[k] = (off + o, sz, tn)
            r.update(mem)
            return r
        for i in out:
            name, ident, _, _ = out[i]
            if "flags: DIFlagFwdDecl" in self.node(i):
                continue
            res[ident or name] = (name, members(i))
        return res


# --------------------------------------------------------------------- building
REPO = os.environ.get("BOOF_REPO", "/repo")
INCLUDES = ["-I%s/boofcpp/src/boofcv" % REPO]


def compile_ll(src, out, lower=True, extra=(), passes=None):
    """compile one TU to analysed IR"""
    raw = out + ".raw.ll"
    cmd = ["/usr/bin/clang++-18", "-std=gnu++11", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fstandalone-debug", "-fno-access-control",
           "-fno-discard-value-names", "-w", "-emit-llvm", "-S", *INCLUDES, *extra, src, "-o", raw]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("front end failed on %s:\n%s" % (src, r.stderr[-3000:]))
    if passes is None:
        passes = "lowerinvoke,simplifycfg,sroa,lower-switch,loop-simplify,lcssa" if lower else "sroa"
        passes = passes.replace("lower-switch", "lowerswitch")
    r = subprocess.run(["/usr/bin/opt-18", "-S", "-passes=" + passes, raw, "-o", out], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("opt failed on %s:\n%s" % (src, r.stderr[-3000:]))
    os.unlink(raw)
    return out
