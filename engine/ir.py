"""Textual LLVM-18 IR reader (the subset clang -O0 + mem2reg emits).

The IR is regenerated by clang from /repo's current sources on every run; this file only reads it.
Functions are parsed lazily.
"""
import re, subprocess

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a", "b")
    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b
    def __repr__(self):
        return f"{self.k}:{self.a}" + (f":{self.b}" if self.b is not None else "")

I = {n: Ty("i", n) for n in (1, 8, 16, 32, 64, 128)}
PTR = Ty("ptr")
VOID = Ty("void")
DBL = Ty("fp", 64)
FLT = Ty("fp", 32)

_id = r'(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)'

def parse_type(s, p):
    n = len(s)
    while p < n and s[p] == " ":
        p += 1
    m = re.compile(r"i(\d+)").match(s, p)
    if m:
        w = int(m.group(1))
        return (I.get(w) or Ty("i", w)), m.end()
    for word, t in (("ptr", PTR), ("void", VOID), ("double", DBL), ("float", FLT), ("x86_fp80", Ty("fp", 80)),
                    ("token", Ty("token")), ("metadata", Ty("metadata")), ("label", Ty("label")), ("opaque", Ty("opaque"))):
        if s.startswith(word, p) and not (p + len(word) < n and (s[p + len(word)].isalnum() or s[p + len(word)] == "_")):
            return t, p + len(word)
    c = s[p]
    if c == "%":
        m = re.compile("%(" + _id + ")").match(s, p)
        return Ty("named", m.group(1).strip('"')), m.end()
    if c == "<" and s[p + 1] == "{":
        els, q = _types(s, p + 2, "}")
        return Ty("struct", els, True), q + 1  # skip '>'
    if c == "{":
        els, q = _types(s, p + 1, "}")
        return Ty("struct", els, False), q
    if c == "[":
        m = re.compile(r"\[\s*(\d+) x ").match(s, p)
        t, q = parse_type(s, m.end())
        return Ty("arr", int(m.group(1)), t), q + 1
    if c == "<":
        m = re.compile(r"<\s*(\d+) x ").match(s, p)
        t, q = parse_type(s, m.end())
        return Ty("vec", int(m.group(1)), t), q + 1
    raise IRError("type? " + s[p:p + 60])

def _types(s, p, close):
    els = []
    while True:
        while s[p] in " ,":
            p += 1
        if s[p] == close:
            return els, p + 1
        t, p = parse_type(s, p)
        els.append(t)

# ---------------------------------------------------------------- values
class V:
    __slots__ = ("k", "v", "t")
    def __init__(self, k, v, t):
        self.k, self.v, self.t = k, v, t
    def __repr__(self):
        return f"{self.k}:{self.v}"

_attr = re.compile(r"\s*(?:(?:sret|byval|elementtype|dereferenceable|dereferenceable_or_null|captures|range|nofpclass|inalloca|byref|preallocated)\(|"
                   r"align \d+|(?:noundef|nonnull|signext|zeroext|inreg|noalias|nocapture|readonly|readnone|writeonly|returned|immarg|nofree|allocptr|allocalign|nest|swiftself|noext|inbounds|nuw|nsw|exact|dead_on_unwind|writable)\b)")
_valre = re.compile(r"\s*(?:(%" + _id + r")|(@" + _id + r")|(-?\d+)\b(?!\.)|(true|false|null|undef|poison|zeroinitializer|none)\b|(-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-FK]+))")

def skip_attrs(s, p, info=None):
    while True:
        m = _attr.match(s, p)
        if not m:
            return p
        p = m.end()
        if m.group(0).rstrip().endswith("("):
            name = m.group(0).strip()[:-1]
            st = p
            d = 1
            while d:
                if s[p] == "(":
                    d += 1
                elif s[p] == ")":
                    d -= 1
                p += 1
            if info is not None:
                info[name] = s[st:p - 1]

def parse_value(s, p, t):
    m = _valre.match(s, p)
    if m:
        if m.group(1):
            return V("reg", m.group(1)[1:].strip('"'), t), m.end()
        if m.group(2):
            return V("glob", m.group(2)[1:].strip('"'), t), m.end()
        if m.group(5):
            return V("fp", m.group(5), t), m.end()
        if m.group(3):
            return V("int", int(m.group(3)), t), m.end()
        return V(m.group(4), None, t), m.end()
    # constant expression / aggregate: swallow balanced
    q = p
    while q < len(s) and s[q] == " ":
        q += 1
    st = q
    d = 0
    while q < len(s):
        c = s[q]
        if c in "([{":
            d += 1
        elif c in ")]}":
            if d == 0:
                break
            d -= 1
        elif c == "," and d == 0:
            break
        q += 1
    return V("cexpr", s[st:q], t), q

def parse_tv(s, p, info=None):
    t, p = parse_type(s, p)
    p = skip_attrs(s, p, info)
    v, p = parse_value(s, p, t)
    return v, p

class Ins:
    __slots__ = ("op", "dst", "t", "a", "x", "text")
    def __init__(self, op, dst=None, t=None, a=None, x=None, text=""):
        self.op, self.dst, self.t, self.a, self.x, self.text = op, dst, t, a, x, text

class Func:
    def __init__(self, mod, name, header, lines):
        self.mod, self.name, self.header, self._lines = mod, name, header, lines
        self.dem = name
        self._parsed = False
        self._parse_header()

    def _parse_header(self):
        h = self.header
        i = h.index("@")
        m = re.compile("@" + _id + r"\(").match(h, i)
        pre = h[:i]
        # return type = last type in pre
        pre2 = re.sub(r"^define\s+", "", pre).strip()
        toks = re.sub(r"\b(dso_local|linkonce_odr|internal|weak_odr|comdat|hidden|private|local_unnamed_addr|noundef|zeroext|signext|nonnull|noalias|align \d+|dereferenceable\(\d+\)|available_externally|weak|external|declare)\b", "", pre2)
        toks = re.sub(r"dereferenceable\(\d+\)", "", toks).strip()
        try:
            self.ret, _ = parse_type(toks, 0)
        except Exception:
            raise IRError("ret type " + pre)
        p = m.end()
        self.args = []
        self.varargs = False
        while True:
            while h[p] in " ,":
                p += 1
            if h[p] == ")":
                break
            if h.startswith("...", p):
                self.varargs = True
                p += 3
                continue
            t, p = parse_type(h, p)
            info = {}
            p = skip_attrs(h, p, info)
            mm = re.compile(r"\s*%(" + _id + ")").match(h, p)
            nm = None
            if mm:
                nm = mm.group(1).strip('"')
                p = mm.end()
            self.args.append((t, nm, info))

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        self.blocks = {}
        self.order = []
        cur = None
        buf = None
        # join multi-line (invoke 'to label', switch [...])
        lines = []
        acc = ""
        for ln in self._lines:
            s = ln.strip()
            if not s or s.startswith(";"):
                continue
            if acc:
                acc += " " + s
                if acc.startswith("SW"):
                    if s.startswith("]") or s.endswith("]"):
                        lines.append(acc[2:])
                        acc = ""
                    continue
                lines.append(acc)
                acc = ""
                continue
            if re.match(r"(%\S+ = )?switch ", s) or s.startswith("switch "):
                if s.endswith("["):
                    acc = "SW" + s
                    continue
            if re.search(r"(^|= )invoke ", s) and " to label " not in s:
                acc = s
                continue
            lines.append(s)
        # landingpad continuation lines (catch/cleanup/filter) may follow; drop them
        for s in lines:
            m = re.match("(" + _id + r"):\s*(;.*)?$", s)
            if m:
                cur = m.group(1).strip('"')
                self.blocks[cur] = []
                self.order.append(cur)
                continue
            if cur is None:
                cur = "entry0"
                self.blocks[cur] = []
                self.order.append(cur)
            if s.startswith(("catch ", "cleanup", "filter ")):
                continue
            self.blocks[cur].append(self._ins(s))
        self.entry = self.order[0]
        self._cfg()
        return self

    def _ins(self, s):
        text = s
        dst = None
        m = re.match("%(" + _id + r") = ", s)
        if m:
            dst = m.group(1).strip('"')
            s = s[m.end():]
        s = re.sub(r", ![a-zA-Z_.]+ !\d+", "", s)
        op = re.match(r"[a-z_]+", s).group(0)
        if op in ("tail", "musttail", "notail"):
            s = s[len(op):].strip()
            op = "call"
        r = s[len(op):]
        try:
            if op == "alloca":
                t, p = parse_type(r, 0)
                return Ins("alloca", dst, t, text=text)
            if op == "load":
                r = re.sub(r"^\s*(volatile|atomic)", "", r)
                t, p = parse_type(r, 0)
                v, _ = parse_tv(r, r.index(",", p) + 1)
                return Ins("load", dst, t, [v], text=text)
            if op == "store":
                r = re.sub(r"^\s*(volatile|atomic)", "", r)
                v, p = parse_tv(r, 0)
                q, _ = parse_tv(r, r.index(",", p) + 1)
                return Ins("store", None, v.t, [v, q], text=text)
            if op == "getelementptr":
                p = skip_attrs(r, 0)
                t, p = parse_type(r, p)
                vs = []
                while p < len(r) and r[p:].lstrip().startswith(","):
                    p = r.index(",", p) + 1
                    v, p = parse_tv(r, p)
                    vs.append(v)
                return Ins("gep", dst, t, vs, text=text)
            if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr",
                      "fadd", "fsub", "fmul", "fdiv", "frem"):
                flags = re.match(r"((?:\s+(?:nuw|nsw|exact|fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|disjoint))*)", r).group(1)
                p = len(flags)
                a, p = parse_tv(r, p)
                b, p = parse_value(r, r.index(",", p) + 1, a.t)
                return Ins(op, dst, a.t, [a, b], flags.split(), text)
            if op in ("icmp", "fcmp"):
                m = re.match(r"\s*(?:samesign\s+)?(\w+)\s", r)
                a, p = parse_tv(r, m.end())
                b, p = parse_value(r, r.index(",", p) + 1, a.t)
                return Ins(op, dst, a.t, [a, b], m.group(1), text)
            if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "freeze"):
                r = re.sub(r"^\s*(nneg|nuw nsw|nuw|nsw)\b", "", r)
                a, p = parse_tv(r, 0)
                if op == "freeze":
                    return Ins("bitcast", dst, a.t, [a], text=text)
                t, _ = parse_type(r, r.index(" to ", p) + 4)
                return Ins(op, dst, t, [a], text=text)
            if op == "fneg":
                a, p = parse_tv(r, 0)
                return Ins(op, dst, a.t, [a], text=text)
            if op == "select":
                a, p = parse_tv(r, 0)
                b, p = parse_tv(r, r.index(",", p) + 1)
                c, p = parse_tv(r, r.index(",", p) + 1)
                return Ins("select", dst, b.t, [a, b, c], text=text)
            if op == "phi":
                t, p = parse_type(r, 0)
                inc = []
                for m in re.finditer(r"\[", r[p:]):
                    pass
                q = p
                while True:
                    k = r.find("[", q)
                    if k < 0:
                        break
                    v, q = parse_value(r, k + 1, t)
                    m = re.compile(r"\s*,\s*%(" + _id + r")\s*\]").match(r, q)
                    inc.append((m.group(1).strip('"'), v))
                    q = m.end()
                return Ins("phi", dst, t, inc, text=text)
            if op == "br":
                m = re.match(r"\s*label %(" + _id + ")", r)
                if m:
                    return Ins("br", None, None, [m.group(1).strip('"')], text=text)
                a, p = parse_tv(r, 0)
                ls = re.findall("label %(" + _id + ")", r[p:])
                return Ins("cbr", None, None, [a] + [x.strip('"') for x in ls], text=text)
            if op == "switch":
                a, p = parse_tv(r, 0)
                ls = re.findall("label %(" + _id + ")", r[p:])
                vs = re.findall(r"i\d+ (-?\d+), label", r[p:])
                return Ins("switch", None, None, [a, ls[0].strip('"'), [(int(v), l.strip('"')) for v, l in zip(vs, ls[1:])]], text=text)
            if op == "ret":
                if r.strip().startswith("void"):
                    return Ins("ret", text=text)
                v, _ = parse_tv(r, 0)
                return Ins("ret", None, v.t, [v], text=text)
            if op in ("call", "invoke"):
                p = 0
                p = skip_attrs(r, p)
                r2 = r[p:]
                r2 = re.sub(r"^\s*(?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|fastcc|ccc)\s+)*", "", r2)
                p = skip_attrs(r2, 0)
                t, p = parse_type(r2, p)
                p = skip_attrs(r2, p)
                # optional function type
                m = re.compile(r"\s*\(").match(r2, p)
                if m:
                    d = 1
                    q = m.end()
                    while d:
                        d += {"(": 1, ")": -1}.get(r2[q], 0)
                        q += 1
                    p = q
                callee, p = parse_value(r2, p, PTR)
                if callee.k == "cexpr":
                    return Ins("unsupported", dst, None, text=text)
                assert r2[p] == "(", r2[p:]
                p += 1
                args = []
                infos = []
                while True:
                    while r2[p] in " ,":
                        p += 1
                    if r2[p] == ")":
                        break
                    if r2.startswith("metadata", p):
                        return Ins("nop", text=text)
                    info = {}
                    v, p = parse_tv(r2, p, info)
                    args.append(v)
                    infos.append(info)
                x = {"callee": callee, "infos": infos}
                if op == "invoke":
                    ls = re.findall("(?:to|unwind) label %(" + _id + ")", r2[p:])
                    x["normal"], x["unwind"] = ls[0].strip('"'), ls[1].strip('"')
                return Ins(op, dst, t, args, x, text)
            if op == "extractvalue":
                a, p = parse_tv(r, 0)
                idx = [int(x) for x in re.findall(r",\s*(\d+)", r[p:])]
                return Ins(op, dst, None, [a], idx, text)
            if op == "insertvalue":
                a, p = parse_tv(r, 0)
                b, p = parse_tv(r, r.index(",", p) + 1)
                idx = [int(x) for x in re.findall(r",\s*(\d+)", r[p:])]
                return Ins(op, dst, a.t, [a, b], idx, text)
            if op in ("unreachable", "resume", "landingpad"):
                return Ins(op, dst, text=text)
        except IRError:
            raise
        except Exception as e:
            return Ins("unsupported", dst, None, text=text + "   ## " + repr(e))
        return Ins("unsupported", dst, None, text=text)

    # ------------------------------------------------------------ CFG
    def succs(self, b):
        i = self.blocks[b][-1]
        if i.op == "br":
            return [i.a[0]]
        if i.op == "cbr":
            return i.a[1:]
        if i.op == "switch":
            return [i.a[1]] + [l for _, l in i.a[2]]
        if i.op == "invoke":
            return [i.x["normal"]]
        return []

    def _cfg(self):
        # reachable blocks (normal edges only), dominators, natural loops
        order, seen, st = [], set(), [(self.entry, 0)]
        seen.add(self.entry)
        stack = [(self.entry, iter(self.succs(self.entry)))]
        post = []
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                post.append(b)
                stack.pop()
        rpo = post[::-1]
        self.rpo = rpo
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succs(b):
                preds[s].append(b)
        dom = {b: set(rpo) for b in rpo}
        dom[self.entry] = {self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == self.entry:
                    continue
                ps = [dom[p] for p in preds[b]]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        self.loops = {}
        for b in rpo:
            for s in self.succs(b):
                if s in dom[b]:
                    body = self.loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x)
                            w.extend(preds[x])
        self.preds = preds
        # blocks from which a normal return is reachable
        can = set(b for b in rpo if self.blocks[b][-1].op == "ret")
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b not in can and any(s in can for s in self.succs(b)):
                    can.add(b)
                    ch = True
        self.can_return = can

class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.funcs = {}
        self.decls = set()
        self.strs = {}
        self.consts = {}
        with open(path) as f:
            lines = f.read().split("\n")
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith("%"):
                m = re.match("%(" + _id + r") = type (.*)$", l)
                if m:
                    self.types[m.group(1).strip('"')] = m.group(2)
            elif l.startswith("define "):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                m = re.search("@(" + _id + r")\(", l)
                nm = m.group(1).strip('"')
                self.funcs[nm] = (l, lines[i + 1:j])
                i = j
            elif l.startswith("@") and " c\"" in l:
                m = re.match("@(" + _id + r') = .*constant \[\d+ x i8\] c"(.*?)"', l)
                if m:
                    self.strs[m.group(1).strip('"')] = re.sub(r"\\00$", "", m.group(2))
            elif l.startswith("@"):
                m = re.match("@(" + _id + r") = .*constant i(\d+) (-?\d+)", l)
                if m:
                    self.consts[m.group(1).strip('"')] = (int(m.group(2)), int(m.group(3)))
            elif l.startswith("declare "):
                m = re.search("@(" + _id + r")\(", l)
                if m:
                    self.decls.add(m.group(1).strip('"'))
            i += 1
        self._ty = {}
        self._lay = {}
        self._fn = {}

    def named(self, name):
        t = self._ty.get(name)
        if t is None:
            t, _ = parse_type(self.types[name], 0)
            self._ty[name] = t
        return t

    def resolve(self, t):
        while t.k == "named":
            t = self.named(t.a)
        return t

    def sizealign(self, t):
        if t.k == "i":
            b = max(1, t.a // 8)
            return b, b
        if t.k == "ptr":
            return 8, 8
        if t.k == "fp":
            return {32: (4, 4), 64: (8, 8), 80: (16, 16)}[t.a]
        if t.k == "named":
            key = t.a
            if key not in self._lay:
                self._lay[key] = self.sizealign(self.named(key))
            return self._lay[key]
        if t.k == "arr":
            s, a = self.sizealign(t.b)
            return s * t.a, a
        if t.k == "struct":
            off, al = 0, 1
            for e in t.a:
                s, a = self.sizealign(e)
                if t.b:
                    a = 1
                off = (off + a - 1) // a * a
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            return off, al
        raise IRError("size of " + repr(t))

    def size(self, t):
        return self.sizealign(t)[0]

    def field(self, t, i):
        """byte offset and type of field i of struct t"""
        t = self.resolve(t)
        off = 0
        for k, e in enumerate(t.a):
            s, a = self.sizealign(e)
            if t.b:
                a = 1
            off = (off + a - 1) // a * a
            if k == i:
                return off, e
            off += s
        raise IRError("field")

    def leaves(self, t, base=0):
        """list of (offset, scalar Ty, marker); vectors are reported as one leaf of kind 'vector'"""
        if t.k == "named":
            nm = t.a
            if re.match(r"class\.std::vector(\.\d+)?$", nm) and self.size(t) == 24:
                return [(base, Ty("vector"))]
            return self.leaves(self.named(nm), base)
        if t.k == "struct":
            out, off = [], 0
            for k in range(len(t.a)):
                o, e = self.field(t, k)
                out += self.leaves(e, base + o)
            return out
        if t.k == "arr":
            s = self.size(t.b)
            if t.b.k == "i" and t.b.a == 8:
                return []  # padding
            out = []
            for k in range(t.a):
                out += self.leaves(t.b, base + k * s)
            return out
        return [(base, t)]

class Program:
    """A set of modules; functions looked up by mangled name."""
    def __init__(self, paths):
        self.mods = [Module(p) for p in paths]
        self.index = {}
        self.alias = {}         # complete-object constructors are aliases of base-object ones
        for p in paths:
            for l in open(p):
                if l.startswith("@") and " alias " in l:
                    self.alias.setdefault(l.split(" ", 1)[0][1:].strip('"'), l.rsplit("@", 1)[1].strip().strip('"'))
        for m in self.mods:
            for n in m.funcs:
                self.index.setdefault(n, m)
        names = list(self.index)
        alln = set(names)
        for m in self.mods:
            alln |= m.decls
        alln |= set(self.alias)
        alln = sorted(alln)
        out = subprocess.run(["llvm-cxxfilt-18"], input="\n".join(alln), capture_output=True, text=True)
        if out.returncode != 0:
            out = subprocess.run(["c++filt"], input="\n".join(alln), capture_output=True, text=True)
        self.dem = dict(zip(alln, out.stdout.split("\n")))
        self.bydem = {}
        for n in names:
            self.bydem.setdefault(self.dem[n], []).append(n)
        self._fn = {}

    def demangle(self, n):
        return self.dem.get(n, n)

    def find(self, regex):
        r = re.compile(regex)
        return [n for d, ns in self.bydem.items() if r.search(d) for n in ns]

    def func(self, name):
        name = self.alias.get(name, name)
        f = self._fn.get(name)
        if f is None:
            m = self.index.get(name)
            if m is None:
                return None
            h, lines = m.funcs[name]
            f = Func(m, name, h, lines)
            f.dem = self.dem.get(name, name)
            f.parse()
            self._fn[name] = f
        return f
