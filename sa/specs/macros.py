"""The macros of the public headers against the caller's names and expressions.

A use of each macro is written out with neutral names, and again with one thing
about the caller changed that must not matter: a variable is renamed to a name
the macro declares itself, an argument or the result is put into parentheses,
the statement into braces.  The intermediate representation of both must be the
same.  Calls in an argument are counted along the paths of the control flow
graph."""
import os
import re
import shutil
import subprocess
import tempfile
from .. import front

A = ("struct sc_array_int *", "a")
Q = ("struct sc_queue_int *", "q")
L = ("struct sc_list *", "l")
M = ("struct sc_map_64 *", "m")


class Use:
    """body: a statement, an expression ("= ...") or a loop ("for ...", its body is added)"""

    def __init__(self, name, hdr, params, body, once=(), lval=(), result="int", place=False):
        self.name, self.hdr, self.params, self.body = name, hdr, params, body
        self.once, self.lval, self.result, self.place = once, lval, result, place
        self.kind = "expr" if body[0] == "=" else "loop" if body.startswith("for ") else "stmt"
        self.text = body[2:] if self.kind == "expr" else body[4:] if self.kind == "loop" else body


def array(nm, ps, body, **k):
    return Use("sc_array_" + nm, "array/sc_array.h", [A] + ps, body, **k)


def queue(nm, ps, body, **k):
    return Use("sc_queue_" + nm, "queue/sc_queue.h", [Q] + ps, body, **k)


INT, IDX = ("int", "k"), ("size_t", "i")
USES = [
    array("init", [], "sc_array_init({a})"), array("term", [], "sc_array_term({a})"), array("clear", [], "sc_array_clear({a})"),
    array("add", [INT], "sc_array_add({a}, {k})", once="k"), array("del", [IDX], "sc_array_del({a}, {i})", once="i"),
    array("del_unordered", [IDX], "sc_array_del_unordered({a}, {i})", once="i"),
    array("del_last", [], "sc_array_del_last({a})"), array("sort", [("int (*)(const void *, const void *)", "c")], "sc_array_sort({a}, {c})"),
    array("at", [IDX], "= sc_array_at({a}, {i})", once="i", place=True), array("oom", [], "= sc_array_oom({a})", result="bool"),
    array("size", [], "= sc_array_size({a})", result="size_t"), array("last", [], "= sc_array_last({a})", place=True),
    array("foreach", [INT], "for sc_array_foreach ({a}, {k})", lval="k"),
    queue("expand", [], "sc_queue_expand({q})"), queue("init", [], "sc_queue_init({q})"), queue("term", [], "sc_queue_term({q})"),
    queue("clear", [], "sc_queue_clear({q})"), queue("add_last", [INT], "sc_queue_add_last({q}, {k})", once="k"),
    queue("add_first", [INT], "sc_queue_add_first({q}, {k})", once="k"),
    queue("oom", [], "= sc_queue_oom({q})", result="bool"), queue("size", [], "= sc_queue_size({q})", result="size_t"),
    queue("empty", [], "= sc_queue_empty({q})", result="bool"), queue("first", [], "= sc_queue_first({q})", result="size_t"),
    queue("last", [], "= sc_queue_last({q})", result="size_t"), queue("next", [IDX], "= sc_queue_next({q}, {i})", once="i", result="size_t"),
    queue("at", [IDX], "= sc_queue_at({q}, {i})", once="i", place=True), queue("peek_first", [], "= sc_queue_peek_first({q})", place=True),
    queue("peek_last", [], "= sc_queue_peek_last({q})", place=True), queue("del_last", [], "= sc_queue_del_last({q})"),
    queue("del_first", [], "= sc_queue_del_first({q})"), queue("foreach", [INT], "for sc_queue_foreach ({q}, {k})", lval="k"),
    Use("sc_list_entry", "linked-list/sc_list.h", [L], "= sc_list_entry({l}, struct w_box, link)", result="struct w_box *"),
]
for _n, _p in (("foreach", ""), ("foreach_r", ""), ("foreach_safe", "{n}, "), ("foreach_safe_r", "{n}, ")):
    USES.append(Use("sc_list_" + _n, "linked-list/sc_list.h", [L, ("struct sc_list *", "e")] + ([("struct sc_list *", "n")] if _p else []),
                    "for sc_list_%s ({l}, %s{e})" % (_n, _p), lval="en"))
for _n, _p in (("foreach", "{k}, {v}"), ("foreach_key", "{k}"), ("foreach_value", "{v}")):
    USES.append(Use("sc_map_" + _n, "map/sc_map.h", [M] + [("uint64_t", x) for x in "kv" if "{%s}" % x in _p],
                    "for sc_map_%s ({m}, %s)" % (_n, _p), lval="kv"))
for _n in ("found", "oom"):
    USES.append(Use("sc_map_" + _n, "map/sc_map.h", [M], "= sc_map_%s({m})" % _n, result="bool"))
for _n in ("debug", "info", "warn", "error"):
    USES.append(Use("sc_log_" + _n, "logger/sc_log.h", [INT], '= sc_log_%s("%%d", {k})' % _n, once="k"))
USES.append(Use("sc_str_append_fmt", "string/sc_str.h", [("char **", "s"), INT], '= sc_str_append_fmt({s}, "%%d", {k})'.replace("%%", "%"), once="k", result="bool"))
for _n in ("max", "min"):
    USES.append(Use("sc_" + _n, "sc/sc.h", [("int", "a"), ("int", "b")], "= sc_%s({a}, {b})" % _n))

HEAD = """%s
#include <stdbool.h>
#include <stdint.h>
#include <stddef.h>
struct w_box { long tag; struct sc_list *pad; struct { void *n, *p; } link; };
void w_visit(void); void w_use(int); bool w_choose(void);
"""


def decl(t, name):
    return t.replace("(*)", "(*%s)" % name) if "(*)" in t else t + name if t.endswith("*") else t + " " + name


class Bench:
    """variants of one header's uses, compiled as one unit"""

    def __init__(self, hdr, defs):
        self.hdr, self.defs = hdr, defs
        self.fns = {}           # name -> source line

    def add(self, name, u, args, names=None, wrap="%s", before="", extra=(), outer=None, simple=None):
        """args: parameter -> expression; names: parameter -> caller's variable"""
        names = dict(names or {})
        ps = ["%s" % decl(t, names.get(n, "c_" + n)) for t, n in u.params] + list(extra)
        text = u.text.format(**args)
        ret = "void"
        if u.kind == "expr":
            ret = u.result if simple is None else simple
            text = "return " + (wrap % text) + ";"
        elif u.kind == "loop":
            text = wrap % (text + " w_use(%s);" % (outer or "0"))
        else:
            text = wrap % (text + ";")
        self.fns[name] = "%s w_%s(%s) { %s%s }" % (ret, name, ", ".join(ps) or "void", before, text)

    def compile(self):
        """-> ({name: body lines}, {name: error})"""
        bad = {}
        tmp = tempfile.mkdtemp(prefix="scsa.")
        try:
            for _ in range(8):
                src = [HEAD % ('#include "%s"' % os.path.basename(self.hdr))]
                live = [n for n in self.fns if n not in bad]
                for n in live:
                    src.append('#line 1 "v.%s"\n%s' % (n, self.fns[n]))
                f = os.path.join(tmp, "m.c")
                with open(f, "w") as o:
                    o.write("\n".join(src) + "\n")
                r = self.clang(["-S", "-emit-llvm", "-O0", "-fdiscard-value-names", f, "-o", f + ".ll"])
                if r.returncode == 0:
                    break
                errs = re.findall(r"^(?:.*/)?v\.(\w+):\d+:\d+: (?:fatal )?error: (.*)$", r.stderr, re.M)
                new = {n: e for n, e in errs[::-1] if n in self.fns}
                if not new:
                    raise front.FrontError("cannot compile uses of %s:\n%s" % (self.hdr, r.stderr[:2000]))
                bad.update(new)
            else:
                raise front.FrontError("cannot compile uses of " + self.hdr)
            r = self.clang(["-fsyntax-only", "-Xclang", "-ast-dump", "-Xclang", "-ast-dump-filter=w_", "-fno-color-diagnostics", f])
            self.locals = {}
            cur = None
            for l in r.stdout.splitlines():
                m = re.match(r"FunctionDecl .* w_(\w+) '", l)
                if m:
                    cur = m.group(1)
                m = re.search(r"[-`]VarDecl 0x\w+ <.*?> \S+ (?:(?:used|referenced|invalid) )*(\w+) '", l)
                if m and cur:
                    self.locals.setdefault(cur, set()).add(m.group(1))
            with open(f + ".ll") as o:
                return self.bodies(o.read()), bad
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    def clang(self, args):
        cmd = [front.CLANG, "-std=gnu99", "-w", "-Werror=implicit-function-declaration", "-fno-builtin", "-ferror-limit=0", "-DHAVE_BACKTRACE=1", '-D__FILE__="m.c"'] + ["-D" + d for d in self.defs]
        for d in front.DIRS:
            cmd += ["-I" + os.path.join(front.REPO, d)]
        return subprocess.run(cmd + args, cwd=front.REPO, capture_output=True, text=True)

    def text(self, src):
        tmp = tempfile.mkdtemp(prefix="scsa.")
        try:
            f = os.path.join(tmp, "m.c")
            with open(f, "w") as o:
                o.write(src)
            r = self.clang(["-S", "-emit-llvm", "-O0", f, "-o", f + ".ll"])
            if r.returncode:
                e = [l for l in r.stderr.splitlines() if "error" in l]
                return None, e[0].split("/")[-1] if e else "does not compile"
            with open(f + ".ll") as o:
                return o.read(), ""
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    def bodies(self, text):
        strs = dict(re.findall(r'^(@[\w.]+) = private unnamed_addr constant (.*?)(?:, align \d+)?$', text, re.M))
        out = {}
        for m in re.finditer(r"^define [^\n]*?@w_(\w+)\([^\n]*\{\n(.*?)^\}", text, re.M | re.S):
            lines = [re.sub(r", ![\w.]+ ![\w]+", "", l.split(" ; ")[0].strip()) for l in m.group(2).splitlines()]
            if "NDEBUG" in self.defs:
                sub = lambda x: strs.get(x.group(0), x.group(0))
            else:
                sub = lambda x: "@text"         # an assertion quotes its expression
            out[m.group(1)] = [re.sub(r"@(?:\.str|__PRETTY_FUNCTION__)[\w.]*", sub, l) for l in lines if l]
        return out


def most(body, callee):
    """the largest number of calls to callee on a path (a cycle with one: None)"""
    blocks, cur = {"": []}, ""
    for l in body:
        m = re.match(r"(\d+):", l)
        if m:
            cur = m.group(1)
            blocks[cur] = []
        else:
            blocks[cur].append(l)
    memo, open_ = {}, []

    def go(b):
        if b in memo:
            return memo[b]
        if b in open_:
            cyc = open_[open_.index(b):]
            return None if any("@%s(" % callee in l for x in cyc for l in blocks[x]) else 0
        open_.append(b)
        n = sum("@%s(" % callee in l for l in blocks[b])
        best = 0
        for s in re.findall(r"label %(\d+)", " ".join(blocks[b])):
            k = go(s)
            if k is None or best is None:
                best = None
            else:
                best = max(best, k)
        open_.pop()
        memo[b] = None if best is None else best + n
        return memo[b]
    return go("")


def run(R, hdr, uses, defs):
    base = Bench(hdr, defs)
    neutral = lambda u: {n: "c_" + n for _, n in u.params}
    for i, u in enumerate(uses):
        base.add("u%d" % i, u, neutral(u))
    bodies, bad = base.compile()
    for i, u in enumerate(uses):
        R.fact("macro", "u%d" % i not in bad, u.name, hdr, "%s: a plain use compiles with the header alone" % u.name, bad.get("u%d" % i))
    if bad:
        return
    B = Bench(hdr, defs)
    same = []       # (rule, macro, what, variant, reference)
    calls = []
    for i, u in enumerate(uses):
        p = "u%d" % i
        args = neutral(u)
        B.add(p, u, args)
        own = sorted(x for x in base.locals.get(p, ()) if not x.startswith("_"))
        # the caller's names
        if u.kind == "loop":
            B.add(p + "_o", u, args, extra=("int c_o",), outer="c_o")
        for x in own:
            for _, n in u.params:
                v = "%s_n_%s_%s" % (p, n, x)
                B.add(v, u, dict(args, **{n: x}), names={n: x})
                same.append(("capture", u, "a variable of the caller's called '%s' as argument '%s'" % (x, n), v, p))
            if u.kind == "loop":
                v = "%s_o_%s" % (p, x)
                B.add(v, u, args, extra=("int " + x,), outer=x)
                same.append(("capture", u, "a variable of the caller's called '%s' in the body of the loop" % x, v, p + "_o"))
        # any expression as an argument
        for t, n in u.params:
            if n in u.lval:
                forms = [("*c_x", decl(t + "*" if t.endswith("*") else t + " *", "c_x"))]
            elif t.endswith("*"):
                forms = [("c_f ? c_%s : c_x" % n, "int c_f, " + decl(t, "c_x")), ("c_%s + 1" % n, "int c_f"), ("*c_x", decl(t + "*", "c_x")),
                         ("c_%s += c_f" % n, "int c_f")]
            elif "(*)" in t:
                forms = [("c_f ? c_%s : c_x" % n, "int c_f, " + decl(t, "c_x"))]
            else:
                forms = [("c_f ? c_%s : c_x" % n, "int c_f, " + decl(t, "c_x")), ("c_%s | c_x" % n, decl(t, "c_x")), ("c_%s + c_x" % n, decl(t, "c_x")),
                         ("c_%s = c_x" % n, decl(t, "c_x")), ("c_x && c_%s" % n, decl(t, "c_x")), ("- c_%s" % n, "int c_x")]
            for j, (e, ex) in enumerate(forms):
                v = "%s_p_%s%d" % (p, n, j)
                B.add(v, u, dict(args, **{n: e}), extra=(ex,))
                B.add(v + "r", u, dict(args, **{n: "(%s)" % e}), extra=(ex,))
                same.append(("argument", u, "the expression '%s' as argument '%s'" % (e.replace("c_", ""), n), v, v + "r"))
        # the result in any expression
        if u.kind == "expr" and u.result != "struct w_box *":
            forms = ["-%s", "!%s", "%s + 1", "1 - %s", "2 * %s", "%s == 1", "w_choose() ? %s : 0", "%s & 1", "sizeof %s"]
            if u.place:
                forms += ["&%s", "%s++", "%s = 1"]
            for j, e in enumerate(forms):
                v = "%s_r%d" % (p, j)
                ret = "void *" if e[0] == "&" else "long"
                B.add(v, u, args, wrap=e, simple=ret)
                B.add(v + "r", u, args, wrap=e % "(%s)", simple=ret)
                same.append(("result", u, "the result in the expression '%s'" % (e % "M"), v, v + "r"))
        # one statement
        if u.kind != "expr":
            for j, (w, ref) in enumerate((("if (w_choose()) %s else w_visit();", "if (w_choose()) { %s } else { w_visit(); }"),
                                          ("while (w_choose()) %s w_visit();", "while (w_choose()) { %s } w_visit();"))):
                B.add("%s_s%d" % (p, j), u, args, wrap=w)
                B.add("%s_s%dr" % (p, j), u, args, wrap=ref)
                same.append(("statement", u, "the macro as the one statement of an '%s'" % w.split()[0], "%s_s%d" % (p, j), "%s_s%dr" % (p, j)))
            t = u.text.format(**args) + (";" if u.kind == "stmt" else " w_use(0);")
            B.add(p + "_t", u, args, wrap="%s " + t.replace("%", "%%"))
            B.add(p + "_tr", u, args, wrap="{ %s } { " + t.replace("%", "%%") + " }")
            same.append(("statement", u, "the macro twice in one block", p + "_t", p + "_tr"))
        for n in u.once:
            v = p + "_c_" + n
            B.add(v, u, dict(args, **{n: "c_next_%s()" % v}), before="extern %s; " % decl(dict((b, a) for a, b in u.params)[n], "c_next_%s(void)" % v))
            calls.append((u, n, v))
    bodies, bad = B.compile()
    where = hdr + (" with " + ", ".join(d for d in defs if d != "NDEBUG") if [d for d in defs if d != "NDEBUG"] else "")
    for rule, u, what, v, ref in same:
        if ref in bad and v in bad:
            continue            # not a use that makes sense (an array has no product)
        if ref in bad:
            R.fact("macro-" + rule, None, u.name, where, "%s: %s means what it says" % (u.name, what), bad[ref])
        elif v in bad:
            R.fact("macro-" + rule, False, u.name, where, "%s: %s means what it says" % (u.name, what),
                   "does not compile: " + bad[v])
        else:
            ok = bodies.get(v) == bodies.get(ref) and bodies.get(v) is not None
            d = ""
            if not ok:
                d = next(("'%s' where '%s' is meant" % (x, y) for x, y in zip(bodies[v], bodies[ref]) if x != y), "different code")
            R.fact("macro-" + rule, ok, u.name, where, "%s: %s means what it says" % (u.name, what), d)
    for u, n, v in calls:
        k = most(bodies[v], "c_next_" + v) if v in bodies else 0
        R.fact("macro-once", None if v in bad else k == 1, u.name, where, "%s: argument '%s' is evaluated once" % (u.name, n),
               bad.get(v) or ("evaluated %s times on a path" % ("unboundedly many" if k is None else k) if k != 1 else ""))
    R.functions |= {u.name for u in uses}
    R.entry |= {u.name for u in uses}
    R.units.add(where)


def headers(R):
    """each header alone, twice, and with the others in either order; nothing defined for the linker"""
    hs = []
    for d in front.DIRS:
        p = os.path.join(front.REPO, d)
        for f in sorted(os.listdir(p)) if os.path.isdir(p) else ():
            if re.match(r"sc\w*\.h$", f) and not f.endswith("_test.h"):
                hs.append((d + "/" + f, f))
    if len(hs) < 15:
        raise front.FrontError("only %d public headers" % len(hs))
    good = True
    for h, f in hs:
        for defs in ((), ("NDEBUG",)) + ((("SC_LOG_PRINT_FILE_NAME",),) if h.startswith("logger") else ()):
            tag = "".join(" with " + x for x in defs)
            for what, text in (("by itself", '#include "%s"\n' % f), ("twice", ('#include "%s"\n' % f) * 2),
                               ("after every other header", "".join('#include "%s"\n' % x for _, x in hs if x != f) + '#include "%s"\n' % f)):
                b = Bench(h, list(defs))
                ll, err = b.text(text + "int w_end;\n")
                R.fact("header", ll is not None, f, h, "%s can be included %s%s" % (f, what, tag), err)
                ds = sorted(set(re.findall(r"^define (?!internal|available_externally|linkonce)[^\n@]*@(\w+)\(", ll, re.M)) |
                            set(re.findall(r"^@(\w+) = (?:dso_local )?(?:local_unnamed_addr )?(?:global|constant|common)", ll, re.M)) - {"w_end"}) if ll else []
                good = good and ll is not None
                R.fact("header", not ds, f, h, "%s defines nothing for the linker (included %s%s)" % (f, what, tag), " ".join(ds))
    return good


def check(R, tier):
    if not headers(R):
        return
    hdrs = {}
    for u in USES:
        hdrs.setdefault(u.hdr, []).append(u)
    for h, us in hdrs.items():
        for defs in (["NDEBUG"], []):
            run(R, h, us, defs)
        if h.startswith("logger"):
            run(R, h, us, ["NDEBUG", "SC_LOG_PRINT_FILE_NAME"])
