"""Sizes, powers of two and the random generator."""
from ..spec import *
from .. import sysm, models, lin, bits
from ..sysm import events
from ..models import mem_range, set_errno, const_string
from .log import m_tolower as exact_tolower
import re
from fractions import Fraction as Fr

I64_MAX = 2 ** 63 - 1
KB = 1024
UNITS = {"b": 1, "k": KB, "m": KB ** 2, "g": KB ** 3, "t": KB ** 4, "p": KB ** 5, "e": KB ** 6}
MODELS = dict(sysm.S)


def post(C, s, cond, msg, detail=None):
    return C.check(s, "post", cond, msg, detail)


# -------------------------------------------------------------- powers of two
def ones(v, k):
    return v is not None and all(b == (1 if i < k else 0) for i, b in enumerate(v))


def pow2(C):
    C.require("sc_is_pow2", "sc_to_pow2")
    for k in range(64):
        # the power itself
        for s, r in C.run("sc_is_pow2", [(State(), [K(1 << k)])]):
            post(C, s, s.eq(r - 1), "is_pow2: 2^%d is a power of two" % k)
        for s, r in C.run("sc_to_pow2", [(State(), [K(1 << k)])]):
            for t, v in C.E.norm_u(s, r, 64):
                post(C, t, t.eq(v - (1 << k)), "to_pow2: 2^%d stays" % k, "%s" % v)
        if k < 1:
            continue
        # everything between it and the next
        st = State()
        t0 = fresh("t", 0, (1 << k) - 2)
        n = t0 + (1 << k) + 1
        for s, r in C.run("sc_is_pow2", [(st, [n])]):
            post(C, s, s.eq(r), "is_pow2: nothing between 2^%d and 2^%d is a power of two" % (k, k + 1))
        if k == 63:
            continue
        for s, r in C.run("sc_to_pow2", [(State(), [n])]):
            for t, v in C.E.norm_u(s, r, 64):
                ok = t.eq(v - (1 << (k + 1)))
                if not ok:
                    ok = ones(bits.unfold(t, v - 1, 64), k + 1) or ones(bits.unfold(t, t.cs.norm(v - 1), 64), k + 1)
                if not ok and lin.vague(v):
                    ok = None
                post(C, t, ok, "to_pow2: a number above 2^%d becomes 2^%d" % (k, k + 1), "%s" % t.cs.norm(v))
    for s, r in C.run("sc_is_pow2", [(State(), [ZERO])]):
        post(C, s, s.eq(r), "is_pow2: zero is no power of two")
    for s, r in C.run("sc_to_pow2", [(State(), [ZERO])]):
        post(C, s, s.eq(r - 1), "to_pow2: zero becomes one")


# ---------------------------------------------------------- sizes for people
def rational(e, depth=0):
    """a floating-point value as integer * rational: (Lin, Fraction)"""
    if not isinstance(e, Lin) or len(e.t) != 1 or e.c or e.t[0][1] != 1 or depth > 10:
        return None
    d = lin.SYMS[e.t[0][0]].defn
    if not isinstance(d, tuple):
        return None
    if d[0] in ("uitofp", "sitofp"):
        return (d[1], Fr(1))
    if d[0] == "float":
        t = d[1]
        import struct
        try:
            x = Fr(struct.unpack(">d", int(t, 16).to_bytes(8, "big"))[0]) if t.startswith("0x") else Fr(t)
        except (ValueError, OverflowError):
            return None
        return (ONE, x)
    if d[0] in ("fpext", "fptrunc"):
        return rational(d[1], depth + 1)
    if d[0] in ("fmul", "fdiv"):
        a, b = rational(d[1], depth + 1), rational(d[2], depth + 1)
        if a is None or b is None:
            return None
        if d[0] == "fmul":
            if not a[0].t:
                a, b = b, a
            if b[0].t:
                return None
            return (a[0], a[1] * b[0].c * b[1])
        if b[0].t or b[0].c == 0 or b[1] == 0:
            return None
        return (a[0], a[1] / (b[0].c * b[1]))
    return None


def text_of(E, st, p):
    if isinstance(p.b, str) and p.b.startswith("@") and p.b not in st.mem:
        E.global_region(st, p.b[1:])
    b = const_string(st, p)
    return b.decode("latin1") if isinstance(b, bytes) else b


def m_snprintf(E, st, a, inst):
    st.g["shown"] = (st.rp(a[0]), st.norm(a[1]), text_of(E, st, st.rp(a[2])), tuple(st.norm(x) for x in a[3:]))
    out = []
    for s, r in models.M["snprintf"](E, st, a, inst):
        s.g["wr"] = r
        out.append((s, r))
    return out


MODELS["snprintf"] = m_snprintf


def bytes_to_size(C):
    C.require("sc_bytes_to_size")
    E = C.E
    st = State()
    n = fresh("len", 0, I32_MAX)
    buf = C.block(st, "buf", n)
    x = fresh("val", 0, U64)
    got = [False, False]
    for s, r in C.run("sc_bytes_to_size", [(st, [buf, n, x])]):
        sh = s.g.get("shown")
        post(C, s, sh is not None, "bytes_to_size: the size is formatted")
        if sh is None:
            continue
        dst, cap, fmt, args = sh
        post(C, s, dst.b == buf.b and s.eq(dst.off) and s.eq(cap - n), "bytes_to_size: formats into the buffer")
        wr = s.g["wr"]
        for t, i in cases(s, [[("ge", -wr)], [("ge", wr - 1), ("ge", n - wr - 1)], [("ge", wr - 1), ("ge", wr - n)]]):
            p = t.rp(r)
            if i == 1:
                post(C, t, p.b == buf.b and t.eq(p.off), "bytes_to_size: a text that fits is returned")
            else:
                post(C, t, p.b == NULL.b and t.eq(p.off), "bytes_to_size: a text that does not fit is refused")
        if fmt is None:
            post(C, s, None, "bytes_to_size: the format is known")
            continue
        m = re.fullmatch(r"(%[-+ 0#]*\d*(?:\.\d*)?[a-zA-Z]+)[ ]?(?:([A-Za-z]+)|%s)", fmt)
        if m is None:
            post(C, s, None, "bytes_to_size: the format is known", fmt)
            continue
        unit = m.group(2)
        if unit is None:
            u = args[1] if isinstance(args[1], Ptr) else E.i2p(s, args[1])
            unit = text_of(E, s, s.rp(u))
        if unit is None or unit.lower() not in ("b", "kb", "mb", "gb", "tb", "pb", "eb"):
            post(C, s, None if unit is None else False, "bytes_to_size: the unit is one of B to EB", "%s" % unit)
            continue
        w = UNITS[unit[0].lower()]
        conv = m.group(1)
        if conv[-1] in "diu":
            wide = 64 if "l" in conv or "z" in conv or "j" in conv else 32
            for t, v in (E.norm_u if conv[-1] == "u" else E.norm_s)(s, E.as_int(s, args[0]), wide):
                post(C, t, t.ge(x - v.scale(w)) and t.ge(v.scale(w) + (w - 1) - x) if w == 1 else
                     t.ge(x.scale(100) - v.scale(100 * w)) and t.ge(v.scale(100 * w) + w - x.scale(100)), "bytes_to_size: the number shown is the size", "%s %s" % (v, unit))
                got[0] = True
            continue
        pr = re.search(r"\.(\d*)", conv)
        post(C, s, pr is not None and int(pr.group(1) or 0) == 2 or pr is None, "bytes_to_size: two decimals are shown", conv)
        q = rational(args[0])
        if q is None:
            post(C, s, None, "bytes_to_size: the number shown is understood")
            continue
        got[1] = True
        c, f = q
        # c*f units of w bytes, off by less than a hundredth of a unit
        a, b = (f * w).numerator, (f * w).denominator
        for t, cv in E.norm_u(s, c, 64):
            d = x.scale(100 * b) - cv.scale(100 * a)
            # rounding an integer to a double loses at most one part in 2^53
            slack = 0 if t.ge(-cv + 2 ** 53) else None
            if slack is None:
                lo, hi = t.cs.bounds(x)
                slack = 100 * b * (((hi if hi is not None else U64) >> 53) + 1)
            post(C, t, t.ge(d + w * b + slack) and t.ge(-d + w * b + slack), "bytes_to_size: the number shown is the size to two decimals", "%s * %s %s" % (cv, f, unit))
            g, h = f.numerator, f.denominator
            post(C, t, t.ge(cv.scale(g) - (h * 99) // 100) and t.ge(-cv.scale(g) + 1024 * h), "bytes_to_size: the unit leaves a readable number", "%s * %s %s" % (cv, f, unit))
    post(C, State(), all(got) or bool(C.lost), "bytes_to_size: small and large sizes are both shown")


def m_strtoll(E, st, a, inst):
    """a number of any length in front of whatever follows, none at all, or one out of range"""
    P = models.need_cstr(E, st, a[0], inst)
    if P is None:
        return []
    p = st.rp(a[0])
    base = st.const(E.as_int(st, a[2]))
    L = st.cs.norm(P[1] - p.off)
    out = []
    for kind in ("none", "in", "over", "under"):
        s = st.fork()
        k = fresh("parsed", 0, None)
        s.cs.add_ge(L - k)
        if kind == "none":
            s.cs.add_eq(k)
            v = ZERO
        else:
            if not s.cs.add_ge(k - 1):
                continue
            if kind == "in":
                v = fresh("number", -I64_MAX - 1, I64_MAX)
            else:
                v = K(I64_MAX if kind == "over" else -I64_MAX - 1)
                set_errno(E, s, 34, 34)
        if s.cs.bot:
            continue
        s.note("strtoll: %s" % kind)
        s.g["num"] = (kind, p, k, v, L, base)
        e = s.norm(a[1])
        if not (isinstance(e, Ptr) and e.b == NULL.b):
            q = mem_range(E, s, a[1], K(8), inst, "write")
            if q is None:
                continue
            E.write(s, q.b, q.off, K(8), Ptr(p.b, s.cs.norm(p.off + k)))
        out.append((s, v))
    return out


def m_tolower(E, st, a, inst):
    out = []
    for s, x in E.norm_s(st, E.as_int(st, a[0]), 32):
        ok = s.cs.entails_ge(x + 1) and s.cs.entails_ge(-x + 255)
        E.ob(s, "post", ok, "character classification gets an unsigned char or EOF", inst, detail="%s" % x)
        out += exact_tolower(E, s, [x], inst)
    return out


MODELS.update({"strtoll": m_strtoll, "tolower": m_tolower, "toupper": m_tolower})
MODELS["strtol"] = m_strtoll


def size_to_bytes(C):
    C.require("sc_size_to_bytes")
    E = C.E
    st = State()
    models.set_errno(E, st)
    p, L = C.cstring(st, "text")
    seen = set()
    for s, r in C.run("sc_size_to_bytes", [(st, [p])]):
        num = s.g.get("num")
        for t, v in E.norm_s(s, E.as_int(s, r), 64):
            if num is None:
                post(C, t, None, "size_to_bytes: the number is parsed by strtoll")
                continue
            kind, q, k, n, _, base = num
            post(C, t, base == 10 and q.b == p.b and t.eq(q.off), "size_to_bytes: the text is read as a decimal number from its start")
            if kind != "in":
                post(C, t, t.eq(v + 1), "size_to_bytes: no number, or one out of range, is an error", "%s: %s" % (kind, v))
                continue
            tail = L - k
            for u, i in cases(t, [[("eq", tail)], [("eq", tail - 1)], [("eq", tail - 2)], [("ge", tail - 3)]]):
                if i == 3:
                    post(C, u, u.eq(v + 1), "size_to_bytes: text after the unit is an error", "%s" % v)
                    continue
                if i == 0:
                    mult(C, u, v, n, 1)
                    seen.add(1)
                    continue
                c0 = C.byte(u, p, k)
                alts = [[("eq", c0 - c)] for l in UNITS for c in (ord(l), ord(l.upper()))]
                bad = [[("ne", c0 - c) for l in UNITS for c in (ord(l), ord(l.upper()))]]
                for w, j in cases(u, alts + bad):
                    if j == len(alts):
                        post(C, w, w.eq(v + 1), "size_to_bytes: an unknown unit is an error", "%s" % v)
                        continue
                    m = list(UNITS.values())[j // 2]
                    if i == 1:
                        mult(C, w, v, n, m)
                        seen.add(m)
                        continue
                    c1 = C.byte(w, p, k + 1)
                    for y, jj in cases(w, [[("eq", c1 - 98)], [("eq", c1 - 66)], [("ne", c1 - 98), ("ne", c1 - 66)]]):
                        if jj == 2:
                            post(C, y, y.eq(v + 1), "size_to_bytes: an unknown unit is an error", "%s" % v)
                        else:
                            mult(C, y, v, n, m)
    post(C, State(), len(seen) == 7 or bool(C.lost), "size_to_bytes: every unit is known", "%s" % sorted(seen))


def mult(C, s, v, n, m):
    for t, i in cases(s, [[("ge", -n - 1)], [("ge", n), ("ge", -n + I64_MAX // m)], [("ge", n - I64_MAX // m - 1)]]):
        if i == 0:
            post(C, t, t.ge(-v - 1), "size_to_bytes: a negative size is never a positive number of bytes", "%s from %s" % (v, n))
        elif i == 1:
            post(C, t, t.eq(v - n.scale(m)), "size_to_bytes: the number times the unit", "%s from %s * %d" % (t.cs.norm(v), n, m))
        else:
            post(C, t, t.eq(v + 1), "size_to_bytes: a size out of range is an error", "%s from %s * %d" % (t.cs.norm(v), n, m))


# ------------------------------------------------------------ random generator
def rand(C):
    C.require("sc_rand_read")
    C.E.max_unroll = 2
    for nul in (0, 1):
        st = State()
        r = C.new_struct(st, "sc_rand", "rand")
        n = fresh("size", -I32_MAX - 1, I32_MAX)
        size = fresh("room", 0, I32_MAX)
        buf = NULL if nul else C.block(st, "out", size)
        st.cs.add_ge(size - n)
        if nul == 0:
            st.cs.add_ge(n.scale(0) + size)
        for s, _ in C.run("sc_rand_read", [(st, [r, buf, n])]):
            if nul:
                post(C, s, True, "rand_read: without a buffer nothing is written")
                continue
            for t, i in cases(s, [[("ge", -n)], [("ge", n - 1)]]):
                if i == 0:
                    post(C, t, not t.mem[buf.b].ents, "rand_read: a size of zero or less reads nothing")
                    continue
                k = t.const(n)
                if k is None:
                    lo, hi = t.cs.bounds(n)
                    k = lo if lo == hi else None
                if k is None:
                    post(C, t, None, "rand_read: the size is settled on this path")
                    continue
                for j in range(k):
                    hit = [e for e in t.mem[buf.b].ents if t.eq(e[0] - j)]
                    post(C, t, bool(hit), "rand_read: every byte asked for is written")
                far = [e for e in t.mem[buf.b].ents if not t.ge(e[0]) or not t.ge(-e[0] - e[1] + k)]
                post(C, t, not far, "rand_read: nothing else is written")
