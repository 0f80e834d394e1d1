"""URI parser, decided on delimiter skeletons against the RFC 3986 split."""
from ..spec import *
from .. import skel
import itertools
S = "sc_uri"
DEL = b":/?#@[]"
PARTS = ("scheme", "userinfo", "host", "port", "path", "query", "fragment")


def grammar(k):
    """expected parts as (start, length) offsets on the skeleton.  Returns None
    when the input has no scheme or is otherwise to be refused; the port entry
    carries its piece index for the numeric check.  ("any", ...) when RFC 3986
    does not assign the text"""
    P = k.pieces
    n = len(P)

    def off(i):
        return k.off[i] if i < n else k.end

    def isc(i, chars):
        return i < n and P[i][0] == "c" and P[i][1] in chars

    def until(i, chars):
        while i < n and not isc(i, chars):
            i += 1
        return i
    r = {}
    i = until(0, b":")
    if i == n:
        return None
    r["scheme"] = (0, i)
    i += 1
    r["userinfo"] = r["host"] = r["port"] = None
    if isc(i, b"/") and isc(i + 1, b"/"):
        i += 2
        aend = until(i, b"/?#")
        j = until(i, b"@")
        if j < aend:
            r["userinfo"] = (i, j)
            i = j + 1
        if isc(i, b"["):
            j = until(i, b"]")
            if j == n:
                return None
            if j > aend:
                return "any"
            j += 1
        else:
            j = until(i, b":/?#")
        r["host"] = (i, j)
        i = j
        if isc(i, b":"):
            if i + 1 == n:
                return None
            r["port"] = (i + 1, i + 2) if i + 1 < n and P[i + 1][0] == "seg" else (i + 1, i + 1)
            i = r["port"][1]
    j = until(i, b"?#")
    r["path"] = (i, j)
    i = j
    r["query"] = r["fragment"] = None
    if isc(i, b"?"):
        j = until(i, b"#")
        r["query"] = (i + 1, j)
        i = j
    if isc(i, b"#"):
        r["fragment"] = (i + 1, n)
    out = {}
    for p, v in r.items():
        out[p] = (ZERO, ZERO) if v is None else (off(v[0]), off(v[1]) - off(v[0]))
    out["has_port"] = r["port"] is not None
    return out


def text(C, s, p, n, src, o, what, kind="uri"):
    """the string at p is src[o, o+n)"""
    p = s.rp(p)
    C.check(s, kind, p.b in s.mem and s.mem[p.b].live, "%s points into the object" % what)
    if p.b not in s.mem:
        return
    r = s.mem[p.b]
    C.check(s, kind, s.ge(p.off) and s.ge(r.size - p.off - n - 1), "%s lies inside the object" % what)
    z = C.byte(s, p, n)
    C.check(s, kind, s.eq(z), "%s is NUL terminated after its last character" % what, "%s" % z)
    t = s.fork()
    j = C.index(t, n)
    if j is None:
        return
    for u in C.split(t, p, j):
        for v in C.split(u, src, o + j):
            x, y = C.byte(v, p, j), C.byte(v, src, o + j)
            C.check(v, kind, C.same(v, x, y), "%s has exactly its characters of the input" % what, "%s vs %s" % (x, y))


def one(C, spec):
    st = State()
    src, k = skel.make(C, st, "str", spec, DEL, maxseg=2 ** 24)
    want = grammar(k)
    for s, r in C.run("sc_uri_create", [(st, [src])]):
        q = s.rp(r)
        fail = s.g.get("allocfail") or s.g.get("fmtfail")
        if C.null(s, q):
            C.check(s, "leak", not C.leaks(s, []), "a refused URI leaks nothing")
            if fail or want is None or want == "any":
                C.check(s, "uri", True, "input without the required parts is refused")
                continue
            v = s.g.get("strtoul")
            C.check(s, "uri", v is not None and s.ge(v[0], 65536), "only a port above 65535 or a missing part is refused")
            continue
        C.check(s, "leak", not C.leaks(s, [q]), "a parsed URI is a single object")
        C.check(s, "uri", not fail, "a failed allocation or formatting is reported")
        C.check(s, "uri", want is not None, "input without the required parts is refused")
        if want is None:
            continue
        f = C.getp(s, q, S, "str")
        text(C, s, f, k.end, src, ZERO, "the full string")
        if want == "any":
            continue
        v = s.g.get("strtoul")
        if want["has_port"] and want["port"][1].t:
            if v is None:
                C.check(s, "uri", None, "the port is a number")
                continue
            C.check(s, "uri", s.ge(K(65535), v[0]), "a port above 65535 is refused", "%s" % v[0])
            if not s.eq(v[2], want["port"][1]):
                continue        # trailing text after the number: not specified
        for p in PARTS:
            o, n = want[p]
            text(C, s, C.getp(s, q, S, p), n, src, o, p)
        # object is destroyed by one call
        for u, _ in C.run("sc_uri_destroy", [(s.fork(), [q])]):
            C.check(u, "leak", not C.leaks(u, []), "destroy releases the object")


def specs(nd, full):
    """skeletons: nd delimiters, a segment or nothing in every gap"""
    chars = DEL
    for ds in itertools.product(chars, repeat=nd):
        pats = itertools.product((0, 1), repeat=nd + 1) if full else [(1,) * (nd + 1)]
        for pat in pats:
            sp = []
            for i in range(nd):
                if pat[i]:
                    sp.append("s%d" % i)
                sp.append(ds[i])
            if pat[nd]:
                sp.append("s%d" % nd)
            yield sp


def authority(nd, full):
    """scheme://, then nd more delimiters"""
    for rest in specs(nd, full):
        yield ["sch", 58, 47, 47] + rest


def inputs(tier):
    out = []
    for n in (0, 1, 2):
        for sp in specs(n, n < 2 or tier == "thorough"):
            if 58 in sp:
                out.append(sp)
    out += [[], ["s0"], [64, "s0"], ["s0", 47, "s1"]]
    for n in (0, 1):
        out += authority(n, True)
    out += authority(2, tier == "thorough")
    for sp in authority(3, False):
        if len(set(sp[4:])) == 7 and (tier == "thorough" or set(sp[5::2]) & {58, 64}):
            out.append(sp)
    if tier == "thorough":
        out += [sp for sp in authority(3, True) if len(set(x for x in sp[4:] if isinstance(x, int))) == 3]
    # longer ones: every order of the delimiters a full URI uses
    for i, ds in enumerate(itertools.permutations(b"@:/?#")):
        if tier != "thorough" and i % 5:
            continue
        sp = ["sch", 58, 47, 47]
        for i, d in enumerate(ds):
            sp += ["s%d" % i, d]
        out.append(sp + ["s5"])
    for ds in (b"@[::]:/?#", b"[::]/:@?", b"@:/?:@#?@:", b"[]:/?#", b"::@@//??##", b"@:/?#"):
        sp = ["sch", 58, 47, 47]
        for i, d in enumerate(ds):
            sp += ["s%d" % i, d]
        out.append(sp + ["end"])
    return out


def run(C, chunk):
    C.require("sc_uri_create", "sc_uri_destroy")
    st = State()
    for s, r in C.run("sc_uri_create", [(st, [NULL])]):
        C.check(s, "uri", s.isnull(r), "no input, no object")
    for sp in chunk:
        one(C, sp)


MODELS = skel.MODELS
