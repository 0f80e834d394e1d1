from ..spec import *
from ..models import member, congruent
H = 4            # bytes of the length header in front of the characters


def hdr(C):
    C.ssize("sc_str")
    off, n = C.foff("sc_str", "len")
    return off, n


def mkstr(C, st, name="s", nonul=False):
    """an arbitrary length-prefixed string -> (Ptr, len)"""
    o, n = hdr(C)
    h = C.ssize("sc_str")
    L = C.sym("len(%s)" % name, 0, U32 - 5)
    p = C.block(st, name, L + h + 1, "heap")
    C.E.write(st, p.b, K(o), K(n), L)
    C.E.write(st, p.b, L + h, ONE, ZERO)
    if nonul:
        P = L + h
        st.set_attr(p.b, "nonul0", (K(h), P))
    else:
        P = fresh("nul(%s)" % name, h, None)
        st.assume_ge(L + h, P)
    st.set_attr(p.b, "cstr", (K(h), P))
    w = st.wreg(p.b)
    w.nwr = 0
    w.lazy = w.lazy + ((P, ONE, ZERO),)
    C.pre(st, p.b, now=True)
    return Ptr(p.b, K(h)), L, P


def holder(C, st, p):
    h = C.block(st, "holder", K(8))
    C.E.write(st, h.b, ZERO, K(8), p)
    return h


def held(C, st, h):
    return st.rp(C.E.read(st, h.b, ZERO, 8, PTR))


def okstr(C, s, p, what, kind="str"):
    """p is a well-formed length-prefixed string -> its length"""
    o, n = hdr(C)
    h = C.ssize("sc_str")
    r = s.mem.get(p.b)
    if not C.check(s, kind, r is not None and r.live and r.kind == "heap" and s.eq(p.off, h),
                   "%s points at the characters of a live allocation" % what):
        return None
    L = s.norm(C.E.read(s, p.b, K(o), n, I(32)))
    C.check(s, kind, s.ge(r.size, L + h + 1), "%s has storage for its length, header and terminator" % what,
            "len=%s storage=%s" % (L, r.size))
    C.check(s, kind, s.eq(C.byte(s, Ptr(p.b, h + L))), "%s is NUL terminated at its length" % what)
    return L


def bytes_are(C, s, p, start, n, src, soff, what, kind="content"):
    """characters [start, start+n) of p equal the bytes of src from soff"""
    s = s.fork()
    j = C.index(s, n)
    if j is None:
        return
    for t in C.split(s, p, start + j):
        for u in C.split(t, src, soff + j):
            a = C.byte(u, p, start + j)
            b = C.byte(u, src, soff + j)
            C.check(u, kind, C.same(u, a, b), what, "%s vs %s" % (a, b))


def formatted(C, s, p, L, what, kind="content"):
    """the string is the complete output of one formatting call"""
    j = C.index(s, L)
    if j is None:
        return
    a = s.norm(C.byte(s, p, j))
    ok = False
    if len(a.t) == 1 and not a.c:
        d = lin.SYMS[a.t[0][0]].defn
        if d and d[0] == "havoc":
            for uid, rc, whole in s.g.get("fmt", ()):
                if uid == d[1]:
                    ok = whole and s.eq(rc, L) and s.eq(d[2], j)
    C.check(s, kind, ok, what, "%s" % a)


def failed(s):
    return s.g.get("allocfail", 0) > 0


def noleak(C, s, roots):
    for x in C.leaks(s, roots):
        C.check(s, "leak", False, "nothing allocated is lost", x.name)
    C.check(s, "leak", True, "nothing allocated is lost")


def constructors(C):
    C.widths("str")
    C.require("sc_str_create", "sc_str_create_len", "sc_str_create_fmt", "sc_str_create_va", "sc_str_dup",
              "sc_str_len", "sc_str_destroy", "sc_str_cmp")
    # create
    for null in (False, True):
        st = State()
        src, n = C.cstring(st, "src")
        for s, r in C.run("sc_str_create", [(st, [NULL if null else src])]):
            created(C, s, r, None if null else n, src, big=True)
        st = State()
        n = C.sym("len", 0, U32 - 5)
        src = C.block(st, "src", n)
        for s, r in C.run("sc_str_create_len", [(st, [NULL if null else src, n])]):
            created(C, s, r, None if null else n, src)
        st = State()
        p, L, P = mkstr(C, st)
        for s, r in C.run("sc_str_dup", [(st, [NULL if null else p])]):
            created(C, s, r, None if null else L, p, keep=p)
            if not null:
                C.check(s, "atomic", s.mem[p.b].nwr == 0, "the source is not modified")
        for s, r in C.run("sc_str_len", [(State(), [NULL])]):
            C.check(s, "post", s.eq(r, -1) or s.eq(r, 2 ** 64 - 1), "the length of NULL is -1")
    st = State()
    p, L, P = mkstr(C, st)
    for s, r in C.run("sc_str_len", [(st, [p])]):
        C.check(s, "post", s.eq(r, L), "length is the stored length")
    # formatted construction
    st = State()
    fmt, _ = C.cstring(st, "fmt")
    for s, r in C.run("sc_str_create_fmt", [(st, [fmt])]):
        r = s.rp(r)
        if C.null(s, r):
            C.check(s, "post", failed(s) or bool(s.g.get("fmtfail")), "creation only fails when memory or formatting fails")
            noleak(C, s, [])
            continue
        L = okstr(C, s, r, "created string")
        if L is not None:
            formatted(C, s, r, L, "the text is the whole formatted output")
        noleak(C, s, [r])
    # destroy
    for null in (False, True):
        st = State()
        p, L, P = mkstr(C, st)
        if null:
            del st.mem[p.b]
        h = holder(C, st, NULL if null else p)
        for s, r in C.run("sc_str_destroy", [(st, [h])]):
            C.check(s, "post", s.isnull(held(C, s, h)), "destroy clears the pointer")
            if not null:
                C.check(s, "leak", not s.mem[p.b].live, "destroy releases the string")
    for s, r in C.run("sc_str_destroy", [(State(), [NULL])]):
        pass
    # compare
    st = State()
    p, L, P = mkstr(C, st, "s1")
    q, L2, P2 = mkstr(C, st, "s2")
    for s, r in C.run("sc_str_cmp", [(st, [p, q])]):
        for t, k in cases(s, [[("ge", r - 1)], [("eq", r)]]):
            if k == 0:
                C.check(t, "content", t.eq(L, L2), "equal strings have equal length")
                j = C.index(t, L)
                if j is None:
                    continue
                ok = eqrange(C, t, p, q, j)
                C.check(t, "content", ok, "equal strings have equal bytes at every index")
    st = State()
    p, L, P = mkstr(C, st, "s1")
    for s, r in C.run("sc_str_cmp", [(st, [p, p])]):
        C.check(s, "content", s.ge(r, 1), "a string equals itself")


def eqrange(C, t, p, q, j):
    """byte j of p and q known equal (whole-range comparison or same byte)"""
    for a, b, n in t.g.get("eqr", ()):
        for x, y in ((a, b), (b, a)):
            if x.b == p.b and y.b == q.b:
                d = p.off + j - x.off
                if t.eq(q.off + j - y.off, d) and t.ge(d) and t.ge(n, d + 1):
                    return True
    if C.same(t, C.byte(t, p, j), C.byte(t, q, j)):
        return True
    # a byte loop: enumerate when the range is small
    lo, hi = t.cs.bounds(j)
    if hi is not None and hi < 8:
        for k in range(hi + 1):
            u = t.fork()
            if u.cs.add_eq(j - k) and not C.same(u, C.byte(u, p, K(k)), C.byte(u, q, K(k))):
                return False
        return True
    return False


def created(C, s, r, n, src, big=False, keep=None):
    r = s.rp(r)
    roots = [r] + ([keep] if keep is not None else [])
    if n is None:
        C.check(s, "post", s.isnull(r), "NULL in, NULL out")
        return
    if C.null(s, r):
        ok = failed(s) or (big and s.ge(n, U32 - C.ssize("sc_str")))
        C.check(s, "post", ok, "creation only fails when memory fails or the text is too long")
        noleak(C, s, roots)
        return
    L = okstr(C, s, r, "created string")
    if L is None:
        return
    C.check(s, "str", s.ge(K(U32), n), "only a representable length is accepted")
    C.check(s, "content", s.eq(L, n), "created string has the length of its source", "len=%s source=%s" % (L, n))
    bytes_are(C, s, r, ZERO, n, src, ZERO, "created string copies its source")
    noleak(C, s, roots)


def atomic_fail(C, s, h, p, why):
    """false returned: same string, untouched"""
    q = held(C, s, h)
    C.check(s, "atomic", q.b == p.b and s.eq(q.off, p.off), "a failed call keeps the string pointer")
    if p.b != NULLB:
        r = s.mem[p.b]
        C.check(s, "atomic", r.live and r.nwr == 0, "a failed call leaves the string's contents alone")
    C.check(s, "post", why, "a call only fails for a documented reason")
    noleak(C, s, [h])


def mutators(C):
    C.require("sc_str_set", "sc_str_set_fmt", "sc_str_append", "sc_str_trim", "sc_str_substring", "sc_str_replace")

    def setup(null=False, **kw):
        st = State()
        p, L, P = mkstr(C, st, **kw)
        if null:
            del st.mem[p.b]
            p = NULL
        h = holder(C, st, p)
        return st, p, L, P, h

    def after(s, h, p, L0):
        q = held(C, s, h)
        for kind in ("atomic", "content"):
            C.check(s, kind, q.b != NULLB, "a call that reports success leaves a string")
        if not C.check(s, "str", q.b != NULLB, "a successful call leaves a string"):
            return None, None
        L = okstr(C, s, q, "resulting string")
        if p.b != NULLB and q.b != p.b:
            C.check(s, "leak", not s.mem[p.b].live, "the replaced string is released")
        noleak(C, s, [h])
        return q, L

    for null in (False, True):
        # set, including from its own text
        for alias in (False, True):
            if alias and null:
                continue
            st, p, L, P, h = setup(null)
            if alias:
                src, n = p, P - C.ssize("sc_str")
            else:
                src, n = C.cstring(st, "param")
            for s, r in C.run("sc_str_set", [(st, [h, src])]):
                for t, k in cases(s, [[("ge", r - 1)], [("eq", r)]]):
                    if k == 1:
                        atomic_fail(C, t, h, p, failed(t) or t.ge(n, U32 - C.ssize("sc_str")))
                        continue
                    q, L2 = after(t, h, p, L)
                    if q is None or L2 is None:
                        continue
                    C.check(t, "str", t.ge(K(U32), n), "only a representable length is accepted")
                    C.check(t, "content", t.eq(L2, n), "set takes the length of its argument")
                    j = C.index(t, n)
                    if j is not None:
                        srcp = Ptr(C.pre(t, p.b).b, p.off) if alias else src
                        C.check(t, "content", C.same(t, C.byte(t, q, j), C.byte(t, srcp, j)), "set copies its argument")
        st, p, L, P, h = setup(null)
        fmt, _ = C.cstring(st, "fmt")
        for s, r in C.run("sc_str_set_fmt", [(st, [h, fmt])]):
            for t, k in cases(s, [[("ge", r - 1)], [("eq", r)]]):
                if k == 1:
                    atomic_fail(C, t, h, p, failed(t) or bool(t.g.get("fmtfail")))
                    continue
                q, L2 = after(t, h, p, L)
                if q is not None and L2 is not None:
                    formatted(C, t, q, L2, "the text is the whole formatted output")
        # the formatted arguments may include the current text
        if not null:
            st, p, L, P, h = setup()
            fmt = C.E.const_val(st, None, ("str", b"%s\0")) if False else C.cstring(st, "fmt")[0]
            st.set_attr(p.b, "watch", True)
            for s, r in C.run("sc_str_set_fmt", [(st, [h, fmt, p])]):
                pass
        # append
        st, p, L, P, h = setup(null)
        src, n = C.cstring(st, "param")
        for s, r in C.run("sc_str_append", [(st, [h, src])]):
            for t, k in cases(s, [[("ge", r - 1)], [("eq", r)]]):
                base = ZERO if null else L
                if k == 1:
                    atomic_fail(C, t, h, p, failed(t) or t.ge(n + base, U32 - C.ssize("sc_str")))
                    continue
                q, L2 = after(t, h, p, L)
                if q is None or L2 is None:
                    continue
                C.check(t, "str", t.ge(K(U32), base + n), "only a representable length is accepted")
                C.check(t, "content", t.eq(L2, base + n), "append adds the lengths", "len=%s" % L2)
                bytes_are(C, t, q, base, n, src, ZERO, "append copies its argument to the end")
                if not null:
                    bytes_are(C, t, q, ZERO, L, C.pre(t, p.b), p.off, "append keeps the existing text")
        # trim
        st, p, L, P, h = setup(null)
        lst, _ = C.cstring(st, "list")
        for s, r in C.run("sc_str_trim", [(st, [h, lst])]):
            for t, k in cases(s, [[("ge", r - 1)], [("eq", r)]]):
                if k == 1:
                    atomic_fail(C, t, h, p, failed(t) and not null)
                    continue
                if null:
                    C.check(t, "str", t.isnull(held(C, t, h)), "NULL stays NULL")
                    continue
                if not congruent(t):
                    continue
                q, L2 = after(t, h, p, L)
                if q is not None and L2 is not None:
                    trimmed(C, t, q, L2, p, L, lst)
        # substring
        st, p, L, P, h = setup(null)
        a = C.sym("start", 0, U32)
        e = C.sym("end", 0, U32)
        for s, r in C.run("sc_str_substring", [(st, [h, a, e])]):
            for t, k in cases(s, [[("ge", r - 1)], [("eq", r)]]):
                if k == 1:
                    if null:
                        C.check(t, "str", t.isnull(held(C, t, h)), "NULL stays NULL")
                        continue
                    for u, k2 in cases(t, [[("ge", e - a), ("ge", L - e)], [("ge", a - e - 1)], [("ge", e - L - 1)]]):
                        atomic_fail(C, u, h, p, failed(u) or k2 > 0)
                    continue
                C.check(t, "post", t.ge(e, a) and t.ge(L, e) and not null, "only an index range inside the string succeeds")
                q, L2 = after(t, h, p, L)
                if q is None or L2 is None or null:
                    continue
                C.check(t, "content", t.eq(L2, e - a), "substring has the length of its range")
                bytes_are(C, t, q, ZERO, e - a, C.pre(t, p.b), p.off + a, "substring copies its range")


def trimmed(C, t, q, L2, p, L, lst):
    h = C.ssize("sc_str")
    # what the code has read of it is known there
    pre = Ptr(p.b) if t.mem[p.b].nwr == 0 else C.pre(t, p.b)
    if q.b == p.b:
        C.check(t, "content", t.eq(L2, L), "an untouched string keeps its length")
        start = ZERO
    elif t.eq(L2):
        # all of it dropped
        start = ZERO
        u = t.fork()
        if u.cs.add_ge(L - 1):
            c = C.byte(u, pre, K(h))
            for w, k2 in cases(u, [[("ge", c - 1)]]):
                C.check(w, "content", isin(w, lst, c, p, K(h)), "characters dropped at the front are in the list")
    else:
        j = C.index(t, L2)
        if j is None:
            return
        a = t.norm(C.byte(t, q, j))
        d = lin.SYMS[a.t[0][0]].defn if len(a.t) == 1 and not a.c else None
        if not C.check(t, "content", bool(d and d[0] == "init" and d[1] == p.b), "a trimmed string is part of the old one",
                       "%s" % a):
            return
        start = t.norm(d[2] - j - h)
        C.check(t, "content", t.ge(start) and t.ge(L, start + L2) and not t.cs.norm(start).t == j.t,
                "a trimmed string is a range of the old one", "%s" % start)
    u = t.fork()
    if u.cs.add_ge(L2 - 1):
        for off, nm in ((start, "first"), (start + L2 - 1, "last")):
            c = C.byte(u, pre, h + off)
            for w, k in cases(u, [[("ge", c - 1)]]):
                C.check(w, "content", notin(w, lst, c, p, h + off), "the %s character kept is not in the list" % nm)
    # characters dropped at the end
    n = t.norm(L - start - L2)
    for k in range(6):
        u = t.fork()
        if not u.cs.add_ge(n - k - 1):
            break
        c = C.byte(u, pre, h + L - 1 - k)
        for w, k2 in cases(u, [[("ge", c - 1)]]):
            if not isin(w, lst, c, p, h + L - 1 - k):
                print("DBG", [lin.SYMS[x[0]].defn for x in c.t], [[lin.SYMS[x[0]].defn for x in m[1].t] for m in w.g.get("member",())], k, c, w.norm(c), w.norm(L), w.norm(n), [x[1:] for x in w.g.get("span",())], w.g.get("found"), w.g.get("member"), w.tracelist(), t.cs.bounds(c), w.cs.bounds(L), [ (w.norm(x[1]),x[2]) for x in w.g.get("member",())], w.cs.__dict__ if hasattr(w.cs,"__dict__") else [getattr(w.cs,x) for x in w.cs.__slots__])
            C.check(w, "content", isin(w, lst, c, p, h + L - 1 - k), "characters dropped at the end are in the list")
    j = C.index(t, start)
    if j is not None:
        c = C.byte(t, pre, h + j)
        for w, k2 in cases(t, [[("ge", c - 1)]]):
            C.check(w, "content", isin(w, lst, c, p, h + j), "characters dropped at the front are in the list")


def isin(s, lst, c, p, off):
    if member(s, lst, c) is True:
        return True
    for nm, q, n, l in s.g.get("span", ()):
        if nm == "strspn" and q.b == p.b and s.norm(l) == s.norm(lst) and s.ge(off, q.off) and s.ge(q.off + n - 1, off):
            return True
    return False


def notin(s, lst, c, p, off):
    if member(s, lst, c) is False:
        return True
    for nm, q, n, l in s.g.get("span", ()):
        if nm == "strcspn" and q.b == p.b and s.norm(l) == s.norm(lst) and s.ge(off, q.off) and s.ge(q.off + n - 1, off):
            return True
    return False


def replace(C):
    C.require("sc_str_replace")
    h = C.ssize("sc_str")
    st = State()
    for s, r in C.run("sc_str_replace", [(st, [holder(C, st, NULL), C.cstring(st, "a")[0], C.cstring(st, "b")[0]])]):
        C.check(s, "post", s.ge(r, 1), "NULL is accepted")
    for empty in (False, True):
        st = State()
        p, L, P = mkstr(C, st)
        hd = holder(C, st, p)
        rep, rl = C.cstring(st, "rep")
        wi, wl = C.cstring(st, "with")
        if empty:
            st.assume_eq(rl)
        else:
            st.assume_ge(rl, 1)
        ninc = len(C.E.incomplete)
        outs = C.run("sc_str_replace", [(st, [hd, rep, wi])])
        if empty:
            C.E.incomplete, cut = C.E.incomplete[:ninc], C.E.incomplete[ninc:]
            C.check(State(), "post", not cut, "replacing an empty pattern terminates")
        changed = empty or bool(C.lost)
        st0 = State()
        for s, r in outs:
            for t, k in cases(s, [[("ge", r - 1)], [("eq", r)]]):
                if k == 1:
                    big = t.ge(rl, U32) or t.ge(wl, U32)
                    if not big and not failed(t):
                        # the result must really be too long
                        big = t.ge(L + (wl - rl).scale(max(1, len(matches(t)))), U32 - C.ssize("sc_str"))
                    atomic_fail(C, t, hd, p, big or failed(t))
                    continue
                q = held(C, t, hd)
                L2 = okstr(C, t, q, "resulting string")
                changed = changed or q.b != p.b or t.mem[p.b].nwr > 0
                if q.b != p.b:
                    C.check(t, "leak", not t.mem[p.b].live, "the replaced string is released")
                noleak(C, t, [hd])
                if L2 is None:
                    continue
                if empty:
                    C.check(t, "content", t.eq(L2, L), "replacing an empty pattern changes nothing")
                    continue
                m = matches(t)
                C.check(t, "content", t.eq(L2, L + (wl - rl).scale(len(m))), "each match changes the length by the difference",
                        "len=%s, %d matches" % (L2, len(m)))
                pre = C.pre(t, p.b)
                end = h if not m else m[-1] + rl
                C.check(t, "content", any(nm == "strstr" and x.b == p.b and t.eq(x.off - end)
                                          for nm, x in t.g.get("nohit", ())) or not t.g.get("nohit"),
                        "every match is replaced")
                pos_o = K(h)
                pos_n = ZERO
                for f in m + [None]:
                    n = (f if f is not None else L + h) - pos_o
                    bytes_are(C, t, q, pos_n, n, pre, pos_o, "text between matches is kept")
                    pos_n = pos_n + n
                    if f is None:
                        break
                    bytes_are(C, t, q, pos_n, wl, wi, ZERO, "each match becomes the replacement")
                    pos_n = pos_n + wl
                    pos_o = f + rl
        C.check(st0, "content", changed, "replacing can change a string")


def matches(t):
    out = []
    for nm, q, hit, cv in t.g.get("found", ()):
        if nm == "strstr" and not any(t.eq(hit.off, o) for o in out):
            out.append(hit.off)
    return out


def tokens(C):
    C.require("sc_str_token_begin", "sc_str_token_end")
    h = C.ssize("sc_str")
    for s, r in C.run("sc_str_token_begin", [(State(), [NULL, NULL, NULL])]):
        C.check(s, "post", s.isnull(r), "a NULL string has no tokens")
    for null in (True, False):
        st = State()
        sv = holder(C, st, NULL)
        for s, r in C.run("sc_str_token_end", [(st, [NULL, NULL if null else sv])]):
            C.check(s, "post", null or s.isnull(held(C, s, sv)), "a NULL string has no tokens to end")
    st = State()
    p, L, P = mkstr(C, st, nonul=True)
    dl, _ = C.cstring(st, "delim")
    sv = holder(C, st, NULL)
    for s, _ in C.run("sc_str_token_end", [(st.fork(), [p, sv])]):
        restored(C, s, p, L, C.pre(s, p.b), "token_end before any token: the string")
    live = [st]
    for rnd in range(3):
        nxt = []
        for s0 in live:
            prev = held(C, s0, sv)
            for s, r in C.run("sc_str_token_begin", [(s0.fork(), [p, sv, dl])]):
                r = s.rp(r)
                pre = C.pre(s, p.b)
                if C.null(s, r):
                    restored(C, s, p, L, pre, "after the last token the string")
                    C.check(s, "post", prev.b != NULLB, "the first call returns a token")
                    if prev.b == p.b:
                        C.check(s, "post", s.eq(prev.off, L + h), "tokens end only at the end of the string")
                    continue
                e = held(C, s, sv)
                if not C.check(s, "post", e.b == p.b and r.b == p.b and s.ge(e.off, r.off) and s.ge(L + h, e.off) and
                               s.ge(r.off, h), "a token lies inside the string"):
                    continue
                want = p.off if prev.b == NULLB else prev.off + 1
                C.check(s, "post", s.eq(r.off, want), "a token starts right after the previous delimiter")
                for t in C.split(s, e):
                    C.check(t, "post", t.eq(C.byte(t, e)), "a token is NUL terminated")
                bytes_are(C, s, r, ZERO, e.off - r.off, pre, r.off, "a token is the text between delimiters")
                u = s.fork()
                j = C.index(u, e.off - r.off)
                if j is not None:
                    c = C.byte(u, pre, r.off + j)
                    for w, k in cases(u, [[("ge", c - 1)]]):
                        C.check(w, "post", notin(w, dl, c, p, r.off + j), "no delimiter inside a token")
                u = s.fork()
                if u.cs.add_ge(L + h - e.off - 1):
                    c = C.byte(u, pre, e.off)
                    for w, k in cases(u, [[("ge", c - 1)]]):
                        C.check(w, "post", isin(w, dl, c, p, e.off), "a token ends at a delimiter or the end")
                for t, _ in C.run("sc_str_token_end", [(s.fork(), [p, sv])]):
                    restored(C, t, p, L, C.pre(t, p.b), "token_end: the string")
                nxt.append(s)
        live = nxt


def restored(C, s, p, L, pre, what):
    h = C.ssize("sc_str")
    j = C.index(s, L + 1)
    # the terminator is part of the original
    for v, k in cases(s, [[("ge", L - j - 1)], [("eq", j - L)]]):
        for t in C.split(v, p, j):
            if k == 1:
                C.check(t, "content", t.eq(C.byte(t, p, L)), "%s is NUL terminated again" % what)
            else:
                x, y = C.byte(t, p, j), C.byte(t, pre, h + j)
                C.check(t, "content", C.same(t, x, y), "%s has its original bytes" % what, "%s vs %s" % (x, y))
    o, n = hdr(C)
    C.check(s, "content", s.eq(C.E.read(s, p.b, K(o), n, I(32)), L), "%s keeps its length" % what)
