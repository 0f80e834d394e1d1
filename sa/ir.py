"""LLVM IR (textual, clang-18, opaque pointers) parser: the program database
that every analysis in /verif works on."""
import os
import re

TOK = re.compile(r'''
    \s*(
      c"(?:[^"\\]|\\.)*"
    | [%@!]"(?:[^"\\]|\\.)*"
    | "(?:[^"\\]|\\.)*"
    | [%@][-a-zA-Z$._0-9]+
    | ![-a-zA-Z$._0-9]*
    | \#[0-9]+
    | \.\.\.
    | 0x[KLMHR]?[0-9A-Fa-f]+
    | -?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)?
    | -?[0-9]+
    | [a-zA-Z_$.][-a-zA-Z$._0-9]*
    | <\{ | \}>
    | [()\[\]{}<>,=*:|]
    )''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise SyntaxError("cannot tokenize: %r" % s[i:i + 60])
        if s[m.start(1)] == ";":
            break
        out.append(m.group(1))
        i = m.end()
        j = i
        while j < n and s[j].isspace():
            j += 1
        if j < n and s[j] == ";":
            break
    return out


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a", "b", "_sz")

    def __init__(self, k, a=None, b=None):
        self.k = k      # int,ptr,float,double,x86_fp80,void,arr,struct,packed,label,meta,func
        self.a = a
        self.b = b
        self._sz = None

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.a
        if self.k == "arr":
            return "[%d x %r]" % (self.a, self.b)
        if self.k in ("struct", "packed"):
            return "{%s}" % ",".join(map(repr, self.a))
        return self.k


PTR = Ty("ptr")
VOID = Ty("void")
_INT = {}


def I(n):
    if n not in _INT:
        _INT[n] = Ty("int", n)
    return _INT[n]


PARAM_ATTR = {
    "noundef", "zeroext", "signext", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "returned", "immarg",
    "inreg", "dso_local", "readnone", "noreturn", "nounwind", "inbounds", "fastcc", "ccc", "noinline", "swiftself",
    "nofree", "allocptr", "allocalign", "inrange", "dead_on_unwind", "writable", "nest",
}


class Module:
    def __init__(self):
        self.types = {}        # %name -> Ty or None
        self.globals = {}      # name -> Global
        self.funcs = {}        # name -> Func
        self.decls = set()
        self.meta = {}         # '!12' -> raw text
        self.path = None
        self._loc = {}
        self._st = None
        self._enum = None

    # ---- layout
    def size(self, t):
        if t._sz is not None:
            return t._sz
        k = t.k
        if k == "int":
            r = 1 if t.a <= 8 else 2 if t.a <= 16 else 4 if t.a <= 32 else 8 if t.a <= 64 else 16
        elif k == "ptr":
            r = 8
        elif k == "float":
            r = 4
        elif k == "double":
            r = 8
        elif k == "x86_fp80":
            r = 16
        elif k == "arr":
            r = t.a * self.size(t.b)
        elif k == "named":
            r = self.size(self.resolve(t))
        elif k in ("struct", "packed"):
            r = self.layout(t)[1]
        elif k == "void":
            r = 0
        else:
            raise KeyError("size of %r" % t)
        t._sz = r
        return r

    def resolve(self, t):
        while t.k == "named":
            t = self.types[t.a]
            if t is None:
                return Ty("struct", [])
        return t

    def align(self, t):
        t = self.resolve(t)
        if t.k == "arr":
            return self.align(t.b)
        if t.k == "packed":
            return 1
        if t.k == "struct":
            return max([self.align(x) for x in t.a] or [1])
        return max(1, self.size(t))

    def layout(self, t):
        t = self.resolve(t)
        off = 0
        offs = []
        for f in t.a:
            if t.k == "struct":
                al = self.align(f)
                off = (off + al - 1) // al * al
            offs.append(off)
            off += self.size(f)
        if t.k == "struct":
            al = self.align(t)
            off = (off + al - 1) // al * al
        return offs, off

    # ---- debug info
    def loc(self, mid):
        """'!123' -> (file, line)"""
        r = self._loc.get(mid)
        if r is not None:
            return r
        raw = self.meta.get(mid, "")
        m = re.search(r"line: (\d+)", raw)
        line = int(m.group(1)) if m else 0
        m = re.search(r"scope: (!\d+)", raw)
        f = self._scope_file(m.group(1)) if m else "?"
        r = (f, line)
        self._loc[mid] = r
        return r

    def _scope_file(self, mid):
        for _ in range(50):
            raw = self.meta.get(mid, "")
            m = re.search(r"\bfile: (!\d+)", raw)
            if m:
                fr = self.meta.get(m.group(1), "")
                m2 = re.search(r'filename: "([^"]*)"', fr)
                return m2.group(1) if m2 else "?"
            m = re.search(r"\bscope: (!\d+)", raw)
            if not m:
                return "?"
            mid = m.group(1)
        return "?"

    def structs(self):
        """debug-info struct name -> {field: (byte offset, byte size)} plus '' -> total size"""
        if self._st is not None:
            return self._st
        st = {}
        # typedef names of anonymous structs
        alias = {}
        for mid, raw in self.meta.items():
            if "DIDerivedType(tag: DW_TAG_typedef" in raw:
                n = re.search(r'name: "([^"]*)"', raw)
                b = re.search(r"baseType: (!\d+)", raw)
                if n and b:
                    alias.setdefault(b.group(1), n.group(1))
        for mid, raw in self.meta.items():
            if "DICompositeType(tag: DW_TAG_structure_type" in raw or \
                    "DICompositeType(tag: DW_TAG_union_type" in raw:
                m = re.search(r'name: "([^"]*)"', raw)
                name = m.group(1) if m else alias.get(mid)
                e = re.search(r"elements: (!\d+)", raw)
                if not name or not e:
                    continue
                fields = {}
                for f in re.findall(r"!\d+", self.meta.get(e.group(1), "")):
                    fr = self.meta.get(f, "")
                    n = re.search(r'name: "([^"]*)"', fr)
                    if not n:
                        continue
                    o = re.search(r"\boffset: (\d+)", fr)
                    s = re.search(r"\bsize: (\d+)", fr)
                    fields[n.group(1)] = ((int(o.group(1)) if o else 0) // 8,
                                          (int(s.group(1)) if s else 0) // 8)
                sz = re.search(r"\bsize: (\d+)", raw)
                fields[""] = (0, (int(sz.group(1)) if sz else 0) // 8)
                st[name] = fields
        self._st = st
        return st

    def field(self, struct, name):
        return self.structs()[struct][name][0]

    def enums(self):
        if self._enum is None:
            self._enum = {}
            for raw in self.meta.values():
                if "DIEnumerator(" in raw:
                    n = re.search(r'name: "([^"]*)"', raw)
                    v = re.search(r"value: (-?\d+)", raw)
                    if n and v:
                        self._enum[n.group(1)] = int(v.group(1))
        return self._enum


class Global:
    __slots__ = ("name", "ty", "init", "const", "external", "tls", "internal")


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []      # [(ty, name, byval type or None)]
        self.ret = None
        self.blocks = {}      # label -> Block
        self.order = []
        self.internal = False
        self.vararg = False
        self.dbg = None
        self.module = None
        self.loops = None

    def analyse(self):
        """CFG: successors, RPO, natural loops."""
        if self.loops is not None:
            return
        succ = {}
        for l in self.order:
            succ[l] = self.blocks[l].succs()
        self.succ = succ
        entry = self.order[0]
        seen = set()
        post = []
        stack = [(entry, iter(succ[entry]))]
        seen.add(entry)
        while stack:
            l, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                post.append(l)
                stack.pop()
        rpo = post[::-1]
        self.rpo = rpo
        num = {l: i for i, l in enumerate(rpo)}
        self.num = num
        pred = {l: [] for l in rpo}
        for l in rpo:
            for s in succ[l]:
                pred[s].append(l)
        self.pred = pred
        # dominators
        dom = {l: None for l in rpo}
        dom[entry] = entry
        ch = True
        while ch:
            ch = False
            for l in rpo[1:]:
                ps = [p for p in pred[l] if dom[p] is not None]
                d = ps[0]
                for p in ps[1:]:
                    a, b = d, p
                    while a != b:
                        while num[a] > num[b]:
                            a = dom[a]
                        while num[b] > num[a]:
                            b = dom[b]
                    d = a
                if dom[l] != d:
                    dom[l] = d
                    ch = True

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == entry:
                    return False
                b = dom[b]
        self.idom = dom
        self.dominates = dominates
        loops = {}
        for l in rpo:
            for s in succ[l]:
                if dominates(s, l):      # back edge
                    body = loops.setdefault(s, {s})
                    todo = [l]
                    while todo:
                        x = todo.pop()
                        if x in body:
                            continue
                        body.add(x)
                        todo.extend(p for p in pred[x])
        self.loops = loops


class Block:
    __slots__ = ("label", "phis", "insts")

    def __init__(self, label):
        self.label = label
        self.phis = []
        self.insts = []

    def succs(self):
        t = self.insts[-1]
        if t.op == "br":
            return [t.x["t"]] if t.x.get("c") is None else [t.x["t"], t.x["f"]]
        if t.op == "switch":
            return [t.x["d"]] + [l for _, l in t.x["cases"]]
        return []


class Inst:
    __slots__ = ("op", "res", "ty", "ops", "x", "dbg", "blk")

    def __init__(self, op):
        self.op = op
        self.res = None
        self.ty = None
        self.ops = ()
        self.x = {}
        self.dbg = None


# operand: (kind, payload): ('reg', name) ('int', n) ('null',) ('glob', name)
# ('undef',) ('zero',) ('float', txt) ('agg', [..(ty,op)]) ('str', bytes) ('ce', op, ...)
class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        g = self.next()
        if g != v:
            raise SyntaxError("expected %s got %s in %s" % (v, g, " ".join(self.t)[:200]))

    def type(self):
        t = self.next()
        if t[0] == "i" and t[1:].isdigit():
            r = I(int(t[1:]))
        elif t == "ptr":
            r = PTR
        elif t in ("float", "double", "x86_fp80", "void", "label", "metadata", "half", "fp128"):
            r = VOID if t == "void" else Ty(t)
        elif t == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            r = Ty("arr", n, e)
        elif t == "{":
            el = []
            if not self.accept("}"):
                while True:
                    el.append(self.type())
                    if self.accept("}"):
                        break
                    self.expect(",")
            r = Ty("struct", el)
        elif t == "<{":
            el = []
            if not self.accept("}>"):
                while True:
                    el.append(self.type())
                    if self.accept("}>"):
                        break
                    self.expect(",")
            r = Ty("packed", el)
        elif t == "<":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect(">")
            r = Ty("vec", n, e)
        elif t[0] == "%":
            r = Ty("named", t[1:].strip('"'))
        elif t == "opaque":
            r = Ty("struct", [])
        else:
            raise SyntaxError("type? %s in %s" % (t, " ".join(self.t)[:200]))
        # function type in a call:  i32 (ptr, ...)
        if self.peek() == "(" and self._functype_ahead():
            self.next()
            d = 1
            while d:
                x = self.next()
                if x == "(":
                    d += 1
                elif x == ")":
                    d -= 1
        return r

    def _functype_ahead(self):
        # only meaningful in 'call T (args) @f(' contexts
        j = self.i
        d = 0
        while j < len(self.t):
            if self.t[j] == "(":
                d += 1
            elif self.t[j] == ")":
                d -= 1
                if d == 0:
                    nx = self.t[j + 1] if j + 1 < len(self.t) else None
                    return nx is not None and (nx[0] in "@%") and self._call
            j += 1
        return False

    _call = False

    def attrs(self):
        out = {}
        while True:
            t = self.peek()
            if t in PARAM_ATTR:
                out[t] = True
                self.next()
            elif t in ("align",):
                self.next()
                if self.accept("("):
                    self.next()
                    self.expect(")")
                else:
                    self.next()
            elif t in ("dereferenceable", "dereferenceable_or_null", "captures", "range", "memory"):
                self.next()
                self.expect("(")
                d = 1
                while d:
                    x = self.next()
                    d += (x == "(") - (x == ")")
            elif t in ("byval", "sret", "elementtype", "preallocated", "byref", "inalloca"):
                self.next()
                self.expect("(")
                out[t] = self.type()
                self.expect(")")
            elif t and t[0] == "#":
                self.next()
            else:
                return out

    def value(self, ty):
        t = self.next()
        if t[0] == "%":
            return ("reg", t[1:].strip('"'))
        if t[0] == "@":
            return ("glob", t[1:].strip('"'))
        if t == "null":
            return ("null",)
        if t == "true":
            return ("int", 1)
        if t == "false":
            return ("int", 0)
        if t in ("undef", "poison"):
            return ("undef",)
        if t == "zeroinitializer":
            return ("zero",)
        if t == "none":
            return ("zero",)
        if ty.k in ("float", "double", "x86_fp80"):
            return ("float", t)
        if re.fullmatch(r"-?\d+", t):
            return ("int", int(t))
        if t[0] == "c" and t[1:2] == '"':
            return ("str", unescape(t[2:-1]))
        if t in ("{", "[", "<{", "<"):
            close = {"{": "}", "[": "]", "<{": "}>", "<": ">"}[t]
            el = []
            if not self.accept(close):
                while True:
                    et = self.type()
                    self.attrs()
                    el.append((et, self.value(et)))
                    if self.accept(close):
                        break
                    self.expect(",")
            return ("agg", el)
        if t in ("getelementptr", "ptrtoint", "inttoptr", "bitcast", "trunc", "sub", "add"):
            if t == "getelementptr":
                while self.peek() in ("inbounds", "nuw", "nusw"):
                    self.next()
                self.expect("(")
                bt = self.type()
                self.expect(",")
                ops = []
                while True:
                    self.accept("inrange")
                    et = self.type()
                    ops.append((et, self.value(et)))
                    if self.accept(")"):
                        break
                    self.expect(",")
                return ("gep", bt, ops)
            while self.peek() in ("nuw", "nsw"):
                self.next()
            self.expect("(")
            ops = []
            while True:
                et = self.type()
                ops.append((et, self.value(et)))
                if self.accept(")"):
                    break
                if self.accept("to"):
                    self.type()
                    self.expect(")")
                    break
                self.expect(",")
            return ("ce", t, ops)
        if t == "metadata":
            return ("meta",)
        if t[0] == "!":
            return ("meta",)
        raise SyntaxError("value? %s in %s" % (t, " ".join(self.t)[:300]))


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(0x5c)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode("utf-8")
            i += 1
    return bytes(out)


LINKAGE = {"dso_local", "internal", "private", "external", "unnamed_addr", "local_unnamed_addr", "constant", "global",
           "thread_local", "weak", "linkonce_odr", "common", "hidden", "default", "linkonce", "weak_odr"}

BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
       "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "uitofp", "sitofp", "fptoui", "fptosi", "fpext",
        "fptrunc", "addrspacecast"}


def parse_inst(line, mod):
    dbg = None
    m = re.search(r", !dbg (!\d+)", line)
    if m:
        dbg = m.group(1)
        line = line[:m.start()]
    line = re.sub(r", !(range|srcloc|tbaa|nonnull|noundef|llvm\.loop|annotation) !\d+", "", line)
    res = None
    m = re.match(r'\s*(%[-a-zA-Z$._0-9]+|%"[^"]*")\s*=\s*', line)
    if m:
        res = m.group(1)[1:].strip('"')
        line = line[m.end():]
    line = line.strip()
    p = P(None, mod)
    # cheap path: debug intrinsics
    if "@llvm.dbg." in line:
        return None
    p.t = tokenize(line)
    op = p.next()
    while op in ("tail", "musttail", "notail"):
        op = p.next()
    ins = Inst(op)
    ins.res = res
    ins.dbg = dbg
    if op == "br":
        if p.peek() == "label":
            p.next()
            ins.x["t"] = p.next()[1:].strip('"')
            ins.x["c"] = None
        else:
            t = p.type()
            ins.x["c"] = p.value(t)
            p.expect(",")
            p.expect("label")
            ins.x["t"] = p.next()[1:].strip('"')
            p.expect(",")
            p.expect("label")
            ins.x["f"] = p.next()[1:].strip('"')
    elif op == "switch":
        t = p.type()
        ins.ty = t
        ins.ops = (p.value(t),)
        p.expect(",")
        p.expect("label")
        ins.x["d"] = p.next()[1:].strip('"')
        p.expect("[")
        cases = []
        while not p.accept("]"):
            ct = p.type()
            v = p.value(ct)
            p.expect(",")
            p.expect("label")
            cases.append((v[1], p.next()[1:].strip('"')))
        ins.x["cases"] = cases
    elif op == "ret":
        t = p.type()
        ins.ty = t
        if t.k != "void":
            ins.ops = (p.value(t),)
    elif op == "unreachable":
        pass
    elif op == "alloca":
        ins.ty = p.type()
        n = None
        if p.accept(",") and p.peek() != "align":
            nt = p.type()
            n = p.value(nt)
        ins.x["n"] = n
    elif op == "load":
        while p.peek() in ("volatile", "atomic"):
            ins.x[p.next()] = True
        ins.ty = p.type()
        p.expect(",")
        p.type()
        ins.ops = (p.value(PTR),)
        if p.accept(",") and p.accept("align"):
            ins.x["al"] = int(p.next())
    elif op == "store":
        while p.peek() in ("volatile", "atomic"):
            ins.x[p.next()] = True
        ins.ty = p.type()
        v = p.value(ins.ty)
        p.expect(",")
        p.type()
        ins.ops = (v, p.value(PTR))
        if p.accept(",") and p.accept("align"):
            ins.x["al"] = int(p.next())
    elif op == "getelementptr":
        while p.peek() in ("inbounds", "nuw", "nusw"):
            p.next()
        bt = p.type()
        p.expect(",")
        ops = []
        while True:
            et = p.type()
            ops.append((et, p.value(et)))
            if not p.accept(","):
                break
        ins.x["bt"] = bt
        ins.x["idx"] = ops
        ins.ty = PTR
    elif op in ("icmp", "fcmp"):
        while p.peek() in ("fast", "nnan", "ninf", "nsz"):
            p.next()
        ins.x["pred"] = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        ins.ty = t
        ins.ops = (a, b)
    elif op == "phi":
        t = p.type()
        ins.ty = t
        inc = {}
        while True:
            p.expect("[")
            v = p.value(t)
            p.expect(",")
            l = p.next()[1:].strip('"')
            p.expect("]")
            inc[l] = v
            if not p.accept(","):
                break
        ins.x["inc"] = inc
    elif op == "select":
        while p.peek() in ("fast", "nnan"):
            p.next()
        ct = p.type()
        c = p.value(ct)
        p.expect(",")
        t = p.type()
        a = p.value(t)
        p.expect(",")
        t2 = p.type()
        b = p.value(t2)
        ins.ty = t
        ins.ops = (c, a, b)
    elif op == "call":
        while p.peek() in ("fast", "nnan", "nsz", "reassoc"):
            p.next()
        p.attrs()
        p._call = True
        t = p.type()
        p._call = False
        callee = p.value(PTR) if p.peek() != "asm" else ("asm",)
        if callee == ("asm",):
            # inline asm: the text is kept
            while p.peek() != "(":
                a = p.next()
                if a[0] == '"' and "asm" not in ins.x:
                    ins.x["asm"] = a[1:-1]
        p.expect("(")
        args = []
        if not p.accept(")"):
            while True:
                at = p.type()
                a = p.attrs()
                if at.k == "metadata":
                    while p.peek() not in (",", ")"):
                        p.next()
                    args.append((at, ("meta",), a))
                else:
                    args.append((at, p.value(at), a))
                if p.accept(")"):
                    break
                p.expect(",")
        ins.ty = t
        ins.x["callee"] = callee
        ins.x["args"] = args
    elif op in BIN:
        fl = set()
        while p.peek() in ("nuw", "nsw", "exact", "fast", "nnan", "disjoint", "ninf", "nsz"):
            fl.add(p.next())
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        ins.ty = t
        ins.ops = (a, b)
        ins.x["fl"] = fl
    elif op in CAST:
        while p.peek() in ("nneg", "nuw", "nsw"):
            p.next()
        t = p.type()
        a = p.value(t)
        p.expect("to")
        ins.x["from"] = t
        ins.ty = p.type()
        ins.ops = (a,)
    elif op == "fneg":
        t = p.type()
        ins.ty = t
        ins.ops = (p.value(t),)
    elif op == "freeze":
        t = p.type()
        ins.ty = t
        ins.ops = (p.value(t),)
    elif op in ("extractvalue",):
        t = p.type()
        v = p.value(t)
        idx = []
        while p.accept(","):
            idx.append(int(p.next()))
        ins.x["agg"] = t
        ins.ops = (v,)
        ins.x["idx"] = idx
    elif op == "insertvalue":
        t = p.type()
        v = p.value(t)
        p.expect(",")
        et = p.type()
        e = p.value(et)
        idx = []
        while p.accept(","):
            idx.append(int(p.next()))
        ins.ty = t
        ins.ops = (v, e)
        ins.x["idx"] = idx
    elif op in ("atomicrmw", "cmpxchg", "fence", "va_arg"):
        pass
    else:
        raise SyntaxError("instruction? " + line)
    return ins


def parse_module(text):
    m = Module()
    lines = text.split("\n")
    i = 0
    n = len(lines)
    while i < n:
        line = lines[i]
        i += 1
        if not line or line[0] == ";":
            continue
        c = line[0]
        if c == "%":
            mm = re.match(r'%(".*?"|[-a-zA-Z$._0-9]+) = type (.*)$', line)
            body = mm.group(2)
            name = mm.group(1).strip('"')
            if body.strip() == "opaque":
                m.types[name] = None
            else:
                m.types[name] = P(tokenize(body), m).type()
        elif c == "@":
            body = re.sub(r", !dbg !\d+", "", line)
            body = re.sub(r", (align \d+|comdat.*|section \"[^\"]*\")", "", body)
            p = P(tokenize(body), m)
            g = Global()
            g.name = p.next()[1:].strip('"')
            p.expect("=")
            g.const = g.external = g.tls = g.internal = False
            while p.peek() in LINKAGE:
                w = p.next()
                if w == "constant":
                    g.const = True
                elif w == "external":
                    g.external = True
                elif w in ("internal", "private"):
                    g.internal = True
                elif w == "thread_local":
                    g.tls = True
                    if p.accept("("):
                        p.next()
                        p.expect(")")
            g.ty = p.type()
            g.init = None
            if not g.external:
                g.init = p.value(g.ty)
            m.globals[g.name] = g
        elif c == "!":
            mm = re.match(r"(!\d+) = (.*)$", line)
            if mm:
                m.meta[mm.group(1)] = mm.group(2)
        elif line.startswith("declare"):
            mm = re.search(r"@([-a-zA-Z$._0-9]+)\(", line)
            m.decls.add(mm.group(1))
        elif line.startswith("define"):
            mm = re.search(r"!dbg (!\d+)", line)
            hdr = line[len("define"):line.rindex("{")]
            hdr = re.sub(r"!dbg !\d+", "", hdr)
            toks = tokenize(hdr)
            p = P(toks, m)
            internal = False
            while p.peek() in LINKAGE or p.peek() in PARAM_ATTR:
                if p.next() in ("internal", "private"):
                    internal = True
            p.attrs()
            rt = p.type()
            name = p.next()[1:].strip('"')
            f = Func(name)
            f.internal = internal
            f.ret = rt
            f.module = m
            f.dbg = mm.group(1) if mm else None
            p.expect("(")
            if not p.accept(")"):
                k = 0
                while True:
                    if p.accept("..."):
                        f.vararg = True
                        p.expect(")")
                        break
                    at = p.type()
                    a = p.attrs()
                    nm = p.next()[1:].strip('"') if p.peek() and p.peek()[0] == "%" else str(k)
                    f.params.append((at, nm, a))
                    k += 1
                    if p.accept(")"):
                        break
                    p.expect(",")
            m.funcs[name] = f
            cur = None
            while True:
                l = lines[i]
                i += 1
                if l.startswith("}"):
                    break
                if not l.strip():
                    continue
                mm = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', l)
                if mm and not l[0].isspace():
                    cur = Block(mm.group(1).strip('"'))
                    f.blocks[cur.label] = cur
                    f.order.append(cur.label)
                    continue
                if cur is None:
                    cur = Block("entry")
                    f.blocks["entry"] = cur
                    f.order.append("entry")
                # multi-line switch
                if re.match(r"\s*switch ", l) and "]" not in l:
                    while True:
                        l2 = lines[i]
                        i += 1
                        l += " " + l2.strip()
                        if l2.strip().startswith("]"):
                            break
                if l.lstrip().startswith(";"):
                    continue
                ins = parse_inst(l, m)
                if ins is None:
                    continue
                ins.blk = cur.label
                if ins.op == "phi":
                    cur.phis.append(ins)
                else:
                    cur.insts.append(ins)
    for f in m.funcs.values():
        f.module = m
    return m


if __name__ == "__main__":
    import sys
    import time
    for fn in sys.argv[1:]:
        t = time.time()
        m = parse_module(open(fn).read())
        for f in m.funcs.values():
            f.analyse()
        print(os.path.basename(fn), len(m.funcs), "funcs", len(m.types), "types", len(m.structs()), "dbg structs",
              sum(len(f.loops) for f in m.funcs.values()), "loops", "%.2fs" % (time.time() - t))
