"""Signal handlers and the signal-safe formatter."""
from ..spec import *
from .. import sysm, models, lin
from ..sysm import events, get_errno
from ..models import mem_range, set_errno

SIGINT, SIGTERM, SIGHUP, SIGPIPE = 2, 15, 1, 13
FATAL = {"SIGABRT": 6, "SIGSEGV": 11, "SIGBUS": 7, "SIGFPE": 8, "SIGILL": 4}
SA_SIGINFO, SA_RESETHAND = 4, 0x80000000


def post(C, s, cond, msg, detail=None):
    return C.check(s, "post", cond, msg, detail)


# ------------------------------------------------------------------ formatter
def zstr(C, st, data, name):
    rid = C.block(st, name, K(len(data) + 1))
    for i, c in enumerate(data + b"\0"):
        C.E.write(st, rid.b, K(i), ONE, K(c))
    st.set_attr(rid.b, "cstr", (ZERO, K(len(data))))
    return rid


def valist(C, st, vals):
    """vals: [(bytes, value)]; each occupies one eight-byte slot whose unused part is undefined"""
    va = C.block(st, "ap", K(24))
    ov = C.block(st, "arguments", K(8 * len(vals)), default="undef")
    for i, (n, v) in enumerate(vals):
        C.E.write(st, ov.b, K(8 * i), K(n), v)
    for o, k, w in ((0, 4, K(48)), (4, 4, K(304)), (8, 8, ov), (16, 8, NULL)):
        C.E.write(st, va.b, K(o), K(k), w)
    return va, ov


def call(C, st, buf, sz, fmt, vals):
    va, ov = valist(C, st, vals)
    out = []
    for s, r in C.run("sc_signal_vsnprintf", [(st, [buf, sz, fmt, va])]):
        for t, v in C.E.norm_s(s, C.E.as_int(s, r), 32):
            out.append((t, v, va, ov))
    return out


def consumed(C, s, va, ov, n):
    p = s.rp(C.E.read(s, va.b, K(8), 8, PTR))
    post(C, s, p.b == ov.b and s.eq(p.off - 8 * n), "every conversion takes exactly one argument", "argument pointer at %s" % (p.off,))


def ended(C, s, buf, r, sz):
    """the result is a string of r characters inside the buffer"""
    post(C, s, s.ge(r) and s.ge(sz - r - 1), "the result fits the buffer", "r=%s" % s.cs.norm(r))
    for t in C.split(s.fork(), buf, r):
        post(C, t, t.eq(C.byte(t, buf, r)), "the output is terminated at the returned length")


INTS = {"%d": (4, True, 10), "%ld": (8, True, 10), "%lld": (8, True, 10), "%u": (4, False, 10), "%lu": (8, False, 10),
        "%llu": (8, False, 10), "%p": (8, False, 16)}


def magnitudes(st, x, n, signed):
    """-> [(state, magnitude, negative)] of the n-byte pattern x"""
    if not signed:
        return [(st, x, False)]
    out = []
    for t, i in cases(st, [[("ge", -x + (2 ** (8 * n - 1) - 1))], [("ge", x - 2 ** (8 * n - 1))]]):
        out.append((t, x if i == 0 else K(2 ** (8 * n)) - x, i == 1))
    return out


def digits(C, s, buf, lo, n, mag, base, conv):
    """buf[lo, lo+n) is mag written in base without leading zeros"""
    if base == 10:
        acc = ZERO
        for k in range(n):
            d = C.byte(s, buf, lo + k) - 48
            post(C, s, s.ge(d) and s.ge(-d + 9), "%s writes decimal digits" % conv, "%s" % s.cs.norm(d))
            acc = acc.scale(10) + d
            if k == 0 and n > 1:
                post(C, s, s.ge(d - 1), "%s writes no leading zero" % conv)
        post(C, s, s.eq(acc - mag), "%s writes the value of its argument" % conv, "%s of %s" % (s.cs.norm(acc), s.cs.norm(mag)))
        return
    q = [mag]
    for k in range(n):
        q.append(div16(C, s, q[-1]))
    post(C, s, s.eq(q[n]), "%s writes every digit of its argument" % conv)
    if n > 1:
        post(C, s, s.ge(q[n - 1] - 1), "%s writes no leading zero" % conv)
    for k in range(n):
        nib = q[n - 1 - k] - q[n - k].scale(16)
        for t, v in cases(s, [[("eq", nib - h)] for h in range(16)]):
            b = digit(t, C.byte(t, buf, lo + k))
            post(C, t, b == ord("0123456789abcdef"[v]), "%s writes the value of its argument" % conv, "digit %s written as %s" % (v, b))


def digit(t, b):
    c = t.const(b)
    if c is not None:
        return c
    b = t.cs.norm(b)
    if len(b.t) == 1 and b.t[0][1] == 1:
        d = lin.SYMS[b.t[0][0]].defn
        if isinstance(d, tuple) and d[0] == "cbyte":
            i = t.const(d[2])
            if i is not None and 0 <= i < len(d[1]):
                return d[1][i] + b.c
    return None


def div16(C, s, v):
    c = s.const(v)
    if c is not None:
        return K(c // 16)
    q = V(memo_sym(("fdiv", v, 16), "div16"))
    s.cs.add_ge(v - q.scale(16))
    s.cs.add_ge(q.scale(16) - v + 15)
    return q


def ints(C, convs=tuple(INTS)):
    C.require("sc_signal_vsnprintf")
    for conv in convs:
        n, signed, base = INTS[conv]
        x = fresh("x", 0, 2 ** (8 * n) - 1)
        # ample room: the text is exact
        st = State()
        sz = fresh("sz", 32, I32_MAX)
        buf = C.block(st, "buf", sz, default="undef")
        fmt = zstr(C, st, conv.encode(), "fmt")
        for s, r, va, ov in call(C, st, buf, sz, fmt, [(n, x)]):
            consumed(C, s, va, ov, 1)
            ended(C, s, buf, r, sz)
            k = s.const(r)
            if k is None:
                post(C, s, None, "%s has a definite length" % conv)
                continue
            for t, mag, neg in magnitudes(s, x, n, signed):
                lo = 0
                pre = b"-" if neg else b"0x" if base == 16 else b""
                for c in pre:
                    post(C, t, t.eq(C.byte(t, buf, K(lo)) - c), "%s writes the prefix %s" % (conv, pre.decode()))
                    lo += 1
                if k <= lo:
                    post(C, t, False, "%s writes at least one digit" % conv)
                    continue
                digits(C, t, buf, lo, k - lo, mag, base, conv)
        # little room: a prefix of the text, terminated
        if base != 10:
            room = (1, 2, 3)
        else:
            room = (1, 2, 4)
        for m in room:
            st = State()
            sz = K(m)
            buf = C.block(st, "buf", sz, default="undef")
            fmt = zstr(C, st, conv.encode(), "fmt")
            for s, r, va, ov in call(C, st, buf, sz, fmt, [(n, x)]):
                ended(C, s, buf, r, sz)
                k = s.const(r)
                if k is None:
                    post(C, s, None, "%s has a definite length" % conv)
                    continue
                for t, mag, neg in magnitudes(s, x, n, signed):
                    pre = b"-" if neg else b"0x" if base == 16 else b""
                    for i, c in enumerate(pre[:k]):
                        post(C, t, t.eq(C.byte(t, buf, K(i)) - c), "%s writes the prefix %s" % (conv, pre.decode()))
                    short(C, t, buf, len(pre), k, m - 1, mag, base, conv)


def short(C, s, buf, lo, k, cap, mag, base, conv):
    """the k characters that fit are the first ones of the number"""
    if base != 10:
        return
    for d in range(1, 21):
        alt = [("ge", mag - (10 ** (d - 1) if d > 1 else 0)), ("ge", -mag + (10 ** d - 1))]
        for t, _ in cases(s, [alt]):
            post(C, t, k == min(cap, lo + d), "%s: as much as fits is written" % conv, "%d of %d characters in %d" % (k, lo + d, cap))
            m = k - lo
            if m <= 0 or m > d:
                continue
            acc = ZERO
            for i in range(m):
                acc = acc.scale(10) + (C.byte(t, buf, K(lo + i)) - 48)
            w = 10 ** (d - m)
            post(C, t, t.ge(mag - acc.scale(w)) and t.ge(acc.scale(w) + (w - 1) - mag), "%s: a cut number keeps its first digits" % conv)


def strings(C):
    st = State()
    sz = fresh("sz", 0, I32_MAX)
    buf = C.block(st, "buf", sz, default="undef")
    fmt = zstr(C, st, b"%s", "fmt")
    p, L = C.cstring(st, "str")
    for s, r, va, ov in call(C, st, buf, sz, fmt, [(8, p)]):
        consumed(C, s, va, ov, 1)
        for t, i in cases(s, [[("eq", sz)], [("ge", sz - 1), ("ge", sz - 2 - L)], [("ge", sz - 1), ("ge", L - sz + 1)]]):
            if i == 0:
                post(C, t, t.eq(r), "an empty buffer holds nothing")
                continue
            post(C, t, t.eq(r - (L if i == 1 else sz - 1)), "%s: as much as fits is written", "r=%s" % t.cs.norm(r))
            ended(C, t, buf, r, sz)
            j = C.index(t, r)
            if j is None:
                continue
            for u in C.split(t, buf, j):
                post(C, u, C.same(u, C.byte(u, buf, j), C.byte(u, p, j), 8), "%s copies the string")
    # a null string
    st = State()
    sz = fresh("sz", 0, I32_MAX)
    buf = C.block(st, "buf", sz, default="undef")
    fmt = zstr(C, st, b"%s", "fmt")
    for s, r, va, ov in call(C, st, buf, sz, fmt, [(8, NULL)]):
        fixed(C, s, buf, r, sz, b"(null)", "a null string")


def fixed(C, s, buf, r, sz, text, what):
    """the output is text, cut to the buffer"""
    n = len(text)
    alts = [[("eq", sz)]] + [[("eq", sz - 1 - k)] for k in range(n)] + [[("ge", sz - 1 - n)]]
    for t, i in cases(s, alts):
        want = 0 if i == 0 else min(i - 1, n)
        post(C, t, t.eq(r - want), "%s: as much as fits is written" % what, "r=%s" % t.cs.norm(r))
        if i == 0:
            continue
        ended(C, t, buf, r, sz)
        for k in range(want):
            for u in C.split(t.fork(), buf, K(k)):
                post(C, u, u.eq(C.byte(u, buf, K(k)) - text[k]), "%s: the text is copied" % what)


def sequences(C):
    """literal text, conversions and their arguments in order"""
    for text, out in ((b"", b""), (b"abc", b"abc"), (b"a%%b", b"a%b"), (b"%%", b"%"), (b"%%%%", b"%%"), (b"%%d", b"%d")):
        st = State()
        sz = fresh("sz", 0, I32_MAX)
        buf = C.block(st, "buf", sz, default="undef")
        for s, r, va, ov in call(C, st, buf, sz, zstr(C, st, text, "fmt"), []):
            consumed(C, s, va, ov, 0)
            fixed(C, s, buf, r, sz, out, "format \"%s\"" % text.decode())
    # arguments are consumed in order and with their own size
    convs = ["%d", "%llu", "%s", "%u", "%lld", "%p", "%ld", "%s", "%lu"]
    for a in convs:
        for b in ("%s", "%d", "%llu"):
            st = State()
            sz = fresh("sz", 64, I32_MAX)
            buf = C.block(st, "buf", sz, default="undef")
            fmt = zstr(C, st, b"<" + a.encode() + b":" + b.encode() + b">", "fmt")
            vals, parts = [], []
            for i, c in enumerate((a, b)):
                if c == "%s":
                    p, L = C.cstring(st, "s%d" % i, 12)
                    vals.append((8, p))
                    parts.append((p, L))
                else:
                    v = K((5, 7)[i])
                    vals.append((INTS[c][0], v))
                    parts.append((b"0x" if c == "%p" else b"") + str(v.c).encode())
            for s, r, va, ov in call(C, st, buf, sz, fmt, vals):
                consumed(C, s, va, ov, 2)
                ended(C, s, buf, r, sz)
                o = ZERO
                for x in (b"<", parts[0], b":", parts[1], b">"):
                    if isinstance(x, bytes):
                        for k, c in enumerate(x):
                            for u in C.split(s.fork(), buf, o + k):
                                post(C, u, u.eq(C.byte(u, buf, o + k) - c), "\"%s %s\": every item lands behind the one before" % (a, b))
                        o = o + len(x)
                    else:
                        t = s.fork()
                        j = C.index(t, x[1])
                        if j is not None:
                            for u in C.split(t, buf, o + j):
                                post(C, u, C.same(u, C.byte(u, buf, o + j), C.byte(u, x[0], j), 8), "\"%s %s\": the string is copied" % (a, b))
                        o = o + x[1]
                post(C, s, s.eq(r - o), "\"%s %s\": the length is the sum of the items" % (a, b), "r=%s" % s.cs.norm(r))


def unsupported(C):
    """anything but the documented conversions is refused, without reading past the format"""
    for pre, good in ((b"%", b"sdupl%"), (b"%l", b"lud"), (b"%ll", b"ud")):
        for lead in (b"", b"x"):
            st = State()
            sz = fresh("sz", 0, 64)
            buf = C.block(st, "buf", sz, default="undef")
            c = fresh("c", 0, 255)
            n = len(lead) + len(pre)
            fmt = zstr(C, st, lead + pre, "fmt")
            st.mem[fmt.b].a.pop("cstr", None)
            st.mem[fmt.b].size = K(n + 2)
            sts = [(st, c)]
            ok = True
            for g in good:
                ok = ok and st.cs.add_ne(c - g)
            C.E.write(st, fmt.b, K(n), ONE, c)
            C.E.write(st, fmt.b, K(n + 1), ONE, ZERO)
            # the terminator itself as the character: nothing behind it exists
            z = State()
            zsz = fresh("sz", 0, 64)
            zbuf = C.block(z, "buf", zsz, default="undef")
            zf = zstr(C, z, lead + pre, "fmt")
            for s0, b0, n0, f0 in ((st, buf, sz, fmt), (z, zbuf, zsz, zf)):
                for s, r, va, ov in call(C, s0, b0, n0, f0, [(8, fresh("v", 0, U64))]):
                    post(C, s, s.eq(r + 1), "an unsupported conversion is refused", "r=%s" % s.cs.norm(r))


def any_text(C):
    """formats of up to three arbitrary characters; no conversions in them"""
    for n in (1, 2, 3):
        st = State()
        sz = fresh("sz", 0, 16)
        buf = C.block(st, "buf", sz, default="undef")
        fmt = C.block(st, "fmt", K(n + 1))
        cs = [fresh("c%d" % i, 1, 255) for i in range(n)]
        for i, c in enumerate(cs):
            st.cs.add_ne(c - 37)
            C.E.write(st, fmt.b, K(i), ONE, c)
        C.E.write(st, fmt.b, K(n), ONE, ZERO)
        for s, r, va, ov in call(C, st, buf, sz, fmt, []):
            for t, i in cases(s, [[("eq", sz)]] + [[("eq", sz - 1 - k)] for k in range(n)] + [[("ge", sz - 1 - n)]]):
                want = 0 if i == 0 else min(i - 1, n)
                post(C, t, t.eq(r - want), "plain text: as much as fits is written")
                if i:
                    ended(C, t, buf, r, sz)
                    for k in range(want):
                        for u in C.split(t.fork(), buf, K(k)):
                            post(C, u, C.same(u, C.byte(u, buf, K(k)), cs[k], 8), "plain text is copied")


def wrappers(C):
    """snprintf and log hand their arguments on"""
    C.require("sc_signal_snprintf", "sc_signal_log")
    x = fresh("x", 0, U64)
    for fn in ("sc_signal_snprintf", "sc_signal_log"):
        for text, bad in ((b"%s=%llu", False), (b"%c", True)):
            st = State()
            sz = fresh("sz", 0, I32_MAX)
            buf = C.block(st, "buf", sz, default="undef")
            fmt = zstr(C, st, text, "fmt")
            p, L = C.cstring(st, "s", I32_MAX)
            fd = fresh("fd", 0, I32_MAX)
            args = [buf, sz, fmt, p, K(7)]
            C.E.opts["va_types"] = (PTR, I(64))
            if fn == "sc_signal_log":
                args = [fd] + args
            for s, r in C.run(fn, [(st, args)]):
                w = events(s, "write")
                if fn == "sc_signal_log":
                    if bad:
                        post(C, s, not w, "log: nothing is written when the text cannot be formatted")
                        continue
                    post(C, s, len(w) == 1 and s.eq(w[0][1] - fd), "log: one write to the given descriptor")
                    if len(w) != 1:
                        continue
                    e = w[0]
                    q = s.rp(e[2])
                    post(C, s, q.b == buf.b and s.eq(q.off), "log: the buffer is written")
                    r = e[3]
                else:
                    r = C.E.norm_s(s, C.E.as_int(s, r), 32)[0][1]
                    if bad:
                        post(C, s, s.eq(r + 1), "snprintf: a failure is reported")
                        continue
                for t, i in cases(s, [[("eq", sz)], [("ge", sz - 1), ("ge", sz - 3 - L)], [("ge", sz - 1), ("ge", L + 2 - sz)]]):
                    post(C, t, t.eq(r - (ZERO if i == 0 else L + 2 if i == 1 else sz - 1)), "%s: the length of the text" % fn, "r=%s" % t.cs.norm(r))


# ------------------------------------------------------------------- handlers
MODELS = dict(sysm.S)


def shutdown_fd(E, st):
    v = E.as_int(st, E.read(st, E.global_region(st, "sc_signal_shutdown_fd"), ZERO, 4, I(32)))
    return E.norm_s(st, v, 32)[0][1]


def m_write(E, st, a, inst):
    n = st.cs.norm(E.as_int(st, a[2]))
    q = mem_range(E, st, a[1], n, inst, "read")
    if q is None:
        return []
    fd = E.norm_s(st, E.as_int(st, a[0]), 32)[0][1]
    if not st.g.get("two", False) or st.const(n) != 1:
        # a log line: whatever happens to it, it may change errno
        sysm.log(st, "write", fd, q, n)
        set_errno(E, st)
        return [(st, fresh("wr", -1, I32_MAX))]
    out = []
    t = st.fork()
    sysm.log(st, "write", fd, q, n)
    st.g["sent"] = True
    out.append((st, ONE))
    sysm.log(t, "write", fd, q, n)
    sysm.fails(t, "write")
    set_errno(E, t)
    t.g["sent"] = False
    out.append((t, K(-1)))
    return out


MODELS["write"] = m_write


def m_exit(E, st, a, inst):
    sysm.log(st, "_Exit", st.const(E.as_int(st, a[0])))
    E.hooks.setdefault("exits", []).append(st)
    return []


for _n in ("_Exit", "_exit", "exit", "abort", "quick_exit"):
    MODELS[_n] = m_exit


def m_sigset(E, st, a, inst):
    q = mem_range(E, st, a[0], K(128), inst, "write")
    if q is None:
        return []
    E.write(st, q.b, q.off, K(128), Fill(ZERO if inst.x["callee"][1] == "sigemptyset" else K(255)))
    sysm.log(st, inst.x["callee"][1])
    out = [(st, ZERO)]
    if E.opts.get("fail"):
        t = st.fork()
        sysm.fails(t, "sigemptyset")
        set_errno(E, t)
        out.append((t, K(-1)))
    return out


MODELS["sigemptyset"] = MODELS["sigfillset"] = m_sigset


def m_sigaction(E, st, a, inst):
    s = st
    q = mem_range(E, s, a[1], K(152), inst, "read")
    if q is None:
        return []
    sig = E.as_int(s, a[0])
    h = E.read(s, q.b, s.cs.norm(q.off), 8, PTR)
    h = s.rp(h) if isinstance(h, Ptr) else h
    s.g["in_model"] = False
    fl = s.cs.norm(E.as_int(s, E.read(s, q.b, s.cs.norm(q.off + 136), 4, I(32), inst)))
    w = E.read(s, q.b, s.cs.norm(q.off + 8), 1, I(8), inst)
    out = []
    for k in ((True, False) if E.opts.get("fail") else (True,)):
        t = s.fork()
        if not k:
            sysm.fails(t, "sigaction")
            set_errno(E, t)
        sysm.log(t, "sigaction", s.cs.norm(sig), h, fl, k)
        out.append((t, ZERO if k else K(-1)))
    return out


MODELS["sigaction"] = m_sigaction


def m_signal(E, st, a, inst):
    h = st.rp(a[1]) if isinstance(a[1], Ptr) else a[1]
    out = []
    for k in ((True, False) if E.opts.get("fail") else (True,)):
        t = st.fork()
        if not k:
            sysm.fails(t, "signal")
            set_errno(E, t)
        sysm.log(t, "signal", t.cs.norm(E.as_int(t, a[0])), h, k)
        out.append((t, NULL if k else Ptr(NULLB, K(-1))))
    return out


MODELS["signal"] = m_signal


def m_getpid(E, st, a, inst):
    return [(st, V(memo_sym(("pid",), "pid", 1, I32_MAX)))]


MODELS["getpid"] = m_getpid


def m_kill(E, st, a, inst):
    sysm.log(st, "kill", st.cs.norm(E.as_int(st, a[0])), st.cs.norm(E.as_int(st, a[1])))
    return [(st, ZERO)]


MODELS["kill"] = m_kill


def m_raise(E, st, a, inst):
    sysm.log(st, "kill", V(memo_sym(("pid",), "pid", 1, I32_MAX)), st.cs.norm(E.as_int(st, a[0])))
    return [(st, ZERO)]


MODELS["raise"] = m_raise


def m_backtrace(E, st, a, inst):
    n = E.as_int(st, a[1])
    q = mem_range(E, st, a[0], n.scale(8), inst, "write")
    if q is None:
        return []
    c = st.const(n)
    k = fresh("frames", 0, c if c is not None else I32_MAX)
    st.cs.add_ge(n - k)
    E.write(st, q.b, q.off, n.scale(8), Havoc("backtrace"))
    return [(st, k)]


def m_backtrace_fd(E, st, a, inst):
    n = E.norm_s(st, E.as_int(st, a[1]), 32)[0][1]
    if mem_range(E, st, a[0], n.scale(8), inst, "read") is None:
        return []
    sysm.log(st, "trace", E.norm_s(st, E.as_int(st, a[2]), 32)[0][1])
    set_errno(E, st)
    return [(st, None)]


def m_close(E, st, a, inst):
    sysm.log(st, "close", st.cs.norm(E.as_int(st, a[0])))
    return [(st, ZERO)]


MODELS["backtrace"] = m_backtrace
MODELS["backtrace_symbols_fd"] = m_backtrace_fd
MODELS["close"] = m_close


def handlers(C, s):
    """-> {signal: (handler name, flags)} as installed"""
    out = {}
    for e in events(s, "sigaction", "signal"):
        sig = s.const(e[1])
        h = e[2]
        name = None
        if isinstance(h, Ptr):
            if h.b == NULLB or h.b is NULL.b:
                name = {0: "SIG_DFL", 1: "SIG_IGN"}.get(s.const(h.off))
            elif isinstance(h.b, str):
                name = h.b[1:]
        elif isinstance(h, Lin):
            name = {0: "SIG_DFL", 1: "SIG_IGN"}.get(s.const(h))
        out[sig] = (name, e[3] if e[0] == "sigaction" else None)
    return out


def gint(C, s, name):
    v = C.E.as_int(s, C.E.read(s, C.E.global_region(s, name), ZERO, 4, I(32)))
    return C.E.norm_s(s, v, 32)[0][1]


def put_global(C, s, name, v):
    if name not in C.mod.globals:
        raise AnalysisError("anchor vanished: %s" % name)
    C.E.write(s, C.E.global_region(s, name), ZERO, K(4), v)


def installed(C):
    """the handlers sc_signal_init installs when every call succeeds"""
    C.require("sc_signal_init")
    C.E.opts["fail"] = False
    got = None
    for s, r in C.run("sc_signal_init", [(State(), [])]):
        got = handlers(C, s)
    if got is None:
        raise AnalysisError("anchor vanished: sc_signal_init does not return")
    return got


def init(C):
    C.require("sc_signal_init")
    C.E.opts["fail"] = True
    st = State()
    done = [False, False]
    for s, r in C.run("sc_signal_init", [(st, [])]):
        for t, v in C.E.norm_s(s, C.E.as_int(s, r), 32):
            bad = t.g.get("sysfail", ())
            if bad:
                done[1] = True
                post(C, t, t.eq(v + 1), "init: a failure is reported", "after %s" % (bad[0],))
                continue
            done[0] = True
            post(C, t, t.eq(v), "init: success is reported")
            post(C, t, t.eq(gint(C, t, "sc_signal_log_fd") + 1), "init: there is no log descriptor yet")
            post(C, t, t.eq(gint(C, t, "sc_signal_shutdown_fd") + 1), "init: there is no shutdown descriptor yet")
            h = handlers(C, t)
            for sig in (SIGHUP, SIGPIPE):
                post(C, t, h.get(sig, (None,))[0] == "SIG_IGN", "init: signal %d is ignored" % sig, "%s" % (h.get(sig),))
            for sig in (SIGINT, SIGTERM):
                nm, fl = h.get(sig, (None, None))
                f = C.mod.funcs.get(nm)
                post(C, t, f is not None, "init: signal %d gets the shutdown handler" % sig, "%s" % nm)
                if f is not None:
                    info(C, t, sig, f, fl)
                    c = t.const(fl) if fl is not None else 0
                    post(C, t, None if c is None else not c & SA_RESETHAND, "init: the shutdown handler stays for a second signal (%d)" % sig)
            post(C, t, h.get(SIGINT, (1,))[0] == h.get(SIGTERM, (2,))[0], "init: both shutdown signals share a handler")
            for name, sig in FATAL.items():
                nm, fl = h.get(sig, (None, None))
                f = C.mod.funcs.get(nm)
                post(C, t, f is not None and nm != h.get(SIGINT, (None,))[0], "init: %s gets the crash handler" % name, "%s" % nm)
                if f is not None:
                    info(C, t, sig, f, fl)
                    c = t.const(fl) if fl is not None else None
                    post(C, t, None if c is None else bool(c & SA_RESETHAND),
                         "init: a second fault in the crash handler takes the default action (%s)" % name)
    post(C, State(), all(done), "init: both outcomes are possible")
    C.E.opts["fail"] = False


def info(C, t, sig, f, fl):
    c = t.const(fl) if fl is not None else 0
    post(C, t, None if c is None else bool(c & SA_SIGINFO) == (len(f.params) > 1),
         "init: the handler of signal %d is called with the arguments it takes" % sig)


def entry(C, sig, will, sfd, lfd):
    st = State()
    put_global(C, st, "sc_signal_will_shutdown", will)
    put_global(C, st, "sc_signal_shutdown_fd", sfd)
    put_global(C, st, "sc_signal_log_fd", lfd)
    e0 = set_errno(C.E, st)
    st.g["two"] = True
    return st, e0


def shutdown(C):
    h = installed(C)
    name = h.get(SIGINT, (None,))[0]
    if name not in C.mod.funcs:
        raise AnalysisError("anchor vanished: the handler of SIGINT")
    for lk in (0, 1):
        for sk in (0, 1):
            for will in (K(0), K(1)):
                lfd = K(-1) if lk == 0 else fresh("logfd", 0, 2 ** 20)
                sfd = K(-1) if sk == 0 else fresh("shutdownfd", 0, 2 ** 20)
                sig = fresh("sig", 1, 64)
                st, e0 = entry(C, sig, will, sfd, lfd)
                C.E.hooks["exits"] = []
                rets = C.run(name, [(st, [sig] + [NULL] * (len(C.mod.funcs[name].params) - 1))])
                exits = C.E.hooks["exits"]
                for s, _ in rets:
                    log_lines(C, s, lfd if lk else ONE, sfd)
                    post(C, s, s.eq(get_errno(C.E, s) - e0), "shutdown: the interrupted code sees its errno unchanged")
                    post(C, s, will.c == 0, "shutdown: a second signal ends the process at once")
                    post(C, s, sk == 1, "shutdown: without a descriptor the process ends")
                    if will.c == 0 and sk == 1:
                        post(C, s, s.g.get("sent") is True, "shutdown: the handler returns only when the command was sent")
                        post(C, s, s.ne(gint(C, s, "sc_signal_will_shutdown")), "shutdown: the first signal is remembered")
                        w = sends(s, sfd)
                        post(C, s, len(w) == 1, "shutdown: one byte goes to the descriptor", "%d writes" % len(w))
                for s in exits:
                    code = events(s, "_Exit")[-1][1]
                    log_lines(C, s, lfd if lk else ONE, sfd)
                    if will.c:
                        post(C, s, code not in (0, None) and not sends(s, sfd), "shutdown: a second signal ends the process with a failure code, without another command")
                    elif sk == 0:
                        post(C, s, code == 0, "shutdown: without a descriptor the process ends normally", "code %s" % code)
                    else:
                        post(C, s, s.g.get("sent") is False and code not in (0, None), "shutdown: only a command that cannot be sent ends the process", "code %s" % code)
                post(C, State(), bool(rets) == (will.c == 0 and sk == 1), "shutdown: the handler returns exactly when the command can be sent")
                post(C, State(), bool(exits) or C.lost != [], "shutdown: some way out ends the process")


def sends(s, sfd):
    return [e for e in events(s, "write") if s.const(e[3]) == 1 and s.eq(e[1] - sfd)]


def log_lines(C, s, fd, sfd):
    n = 0
    for e in events(s, "write"):
        if s.const(e[3]) == 1 and s.eq(e[1] - sfd):
            continue
        n += 1
        post(C, s, s.eq(e[1] - fd), "messages go to the log descriptor", "to %s" % e[1])
        post(C, s, s.ge(e[3] - 1), "messages are not empty")
    return n


def crash(C):
    h = installed(C)
    names = sorted({h.get(v, (None,))[0] or "?" for v in FATAL.values()})
    pid = V(memo_sym(("pid",), "pid", 1, I32_MAX))
    for name in names:
        if name not in C.mod.funcs:
            raise AnalysisError("anchor vanished: the crash handler")
        for lk in (0, 1):
            lfd = K(-1) if lk == 0 else fresh("logfd", 0, 2 ** 20)
            sig = fresh("sig", 1, 64)
            st, e0 = entry(C, sig, fresh("will", 0, 1), fresh("shutdownfd", -1, 2 ** 20), lfd)
            ctx = C.block(st, "context", K(968))
            si = C.block(st, "siginfo", K(128))
            C.E.hooks["exits"] = []
            rets = C.run(name, [(st, [sig, si, ctx][:len(C.mod.funcs[name].params)])])
            fd = lfd if lk else K(2)
            for s in C.E.hooks["exits"]:
                post(C, s, events(s, "_Exit")[-1][1] not in (0, None), "crash: the process does not end as if nothing happened")
            for s, _ in rets:
                n = log_lines(C, s, fd, K(-2))
                post(C, s, n >= 1, "crash: the signal is reported")
                for e in events(s, "trace"):
                    post(C, s, s.eq(e[1] - fd), "crash: the trace goes to the log descriptor")
                k = [i for i, e in enumerate(s.g.get("log", ())) if e[0] == "kill"]
                post(C, s, bool(k), "crash: the signal is raised again")
                if not k:
                    continue
                e = s.g["log"][k[0]]
                post(C, s, s.eq(e[1] - pid) and s.eq(e[2] - sig), "crash: the same signal is raised in this process", "kill(%s, %s)" % (e[1], e[2]))
                dfl = False
                for x in s.g["log"][:k[0]]:
                    if x[0] == "sigaction" and s.eq(x[1] - sig):
                        hh = x[2]
                        dfl = (isinstance(hh, Ptr) and hh.b == NULL.b and s.eq(hh.off)) or (isinstance(hh, Lin) and s.eq(hh))
                    if x[0] == "signal" and s.eq(x[1] - sig):
                        hh = x[2]
                        dfl = isinstance(hh, Ptr) and hh.b == NULL.b and s.eq(hh.off)
                post(C, s, bool(dfl), "crash: the default action is restored before the signal is raised again")
                late = [x for x in s.g["log"] if x[0] == "close"]
                for x in late:
                    i = s.g["log"].index(x)
                    post(C, s, not any(y[0] in ("write", "trace") and s.eq(y[1] - x[1]) for y in s.g["log"][i:]), "crash: nothing is written to a closed descriptor")


# POSIX.1-2017, 2.4.3, and what the compiler itself emits
SAFE = set("""_Exit _exit abort accept access aio_error aio_return aio_suspend alarm bind cfgetispeed cfgetospeed cfsetispeed
cfsetospeed chdir chmod chown clock_gettime close connect creat dup dup2 execl execle execv execve faccessat fchdir fchmod
fchmodat fchown fchownat fcntl fdatasync fexecve ffs fork fstat fstatat fsync ftruncate futimens getegid geteuid getgid
getgroups getpeername getpgrp getpid getppid getsockname getsockopt getuid htonl htons kill link linkat listen longjmp lseek
lstat memccpy memchr memcmp memcpy memmove memset mkdir mkdirat mkfifo mkfifoat mknod mknodat ntohl ntohs open openat pause
pipe poll posix_trace_event pselect pthread_kill pthread_self pthread_sigmask raise read readlink readlinkat recv recvfrom
recvmsg rename renameat rmdir select sem_post send sendmsg sendto setgid setpgid setsid setsockopt setuid shutdown sigaction
sigaddset sigdelset sigemptyset sigfillset sigismember siglongjmp signal sigpause sigpending sigprocmask sigqueue sigset
sigsuspend sleep sockatmark socket socketpair stat stpcpy stpncpy strcat strchr strcmp strcpy strcspn strlen strncat strncmp
strncpy strnlen strpbrk strrchr strspn strstr strtok_r symlink symlinkat tcdrain tcflow tcflush tcgetattr tcgetpgrp
tcsendbreak tcsetattr tcsetpgrp time timer_getoverrun timer_gettime timer_settime times umask uname unlink unlinkat utime
utimensat utimes wait waitpid wcscpy wmemcpy write __errno_location fcntl64 memrchr rawmemchr mempcpy gettid""".split())
# the crash report names the stack; glibc documents these two as usable there
CRASH_ONLY = {"backtrace", "backtrace_symbols_fd"}


def closure(C):
    """call graph from every installed handler"""
    h = installed(C)
    seen_sites = 0
    for sig, (name, fl) in sorted(h.items(), key=lambda x: x[0] or 0):
        if name not in C.mod.funcs:
            continue
        ok = SAFE | (CRASH_ONLY if sig in FATAL.values() else set())
        todo, done = [(name, (name,))], set()
        while todo:
            fn, path = todo.pop()
            if fn in done:
                continue
            done.add(fn)
            f = C.mod.funcs[fn]
            C.E.visited.add(fn)
            for blk in f.blocks.values():
                for inst in blk.insts:
                    if inst.op not in ("call", "invoke"):
                        continue
                    c = inst.x["callee"]
                    seen_sites += 1
                    C.E.callsites += 1
                    st = State()
                    if c[0] != "glob":
                        C.E.ob(st, "safe", None if c[0] == "reg" else True, "signal %s: %s calls through a pointer" % (sig, fn), inst)
                        continue
                    g = c[1]
                    if g in C.mod.funcs:
                        todo.append((g, path + (g,)))
                        continue
                    if g.startswith("llvm."):
                        continue
                    C.E.ob(st, "safe", g in ok, "%s is async-signal-safe where a signal handler calls it" % g, inst,
                           detail="handler of signal %s, path %s" % (sig, " > ".join(path)))
    if not seen_sites:
        raise AnalysisError("anchor vanished: the handlers call nothing")
