"""Models of the socket, pipe and epoll calls (typestate of descriptors and
address lists; every call is appended to the event log)."""
from . import lin, bits
from .lin import Lin, K, V, ZERO, ONE, fresh, memo_sym
from .eng import Ptr, NULL, NULLB, Havoc, Region
from .models import mem_range, set_errno, get_errno, need_cstr
from . import sysm
from .sysm import sysm as model, log, events, fd_use, fd_new, fd_key, sysfail, nm, IMAX
from .ir import I, PTR

AI = 48
AF_UNIX, AF_INET, AF_INET6 = 1, 2, 10
EINTR, EAGAIN, EINPROGRESS = 4, 11, 115


def failing(E, st, what, lo=1, hi=133):
    """like sysfail, but every failure is remembered: the caller may try again"""
    e = sysfail(E, st, what, lo, hi)
    st.g["errs"] = st.g.get("errs", ()) + ((what, e),)
    return e


def nul_or_cstr(E, st, v, inst):
    p = st.rp(v) if isinstance(v, Ptr) else E.i2p(st, v)
    if p.b == NULLB:
        return p, True
    return p, need_cstr(E, st, p, inst) is not None


@model("getaddrinfo")
def n_getaddrinfo(E, st, a, inst):
    for i in (0, 1):
        p, ok = nul_or_cstr(E, st, a[i], inst)
        if not ok:
            return []
    hint = {}
    h = st.rp(a[2]) if isinstance(a[2], Ptr) else E.i2p(st, a[2])
    if h.b != NULLB:
        q = mem_range(E, st, h, K(AI), inst, "read")
        if q is None:
            return []
        for n, o in (("flags", 0), ("family", 4), ("type", 8), ("proto", 12)):
            hint[n] = st.const(E.as_int(st, E.read(st, q.b, st.cs.norm(q.off + o), 4, I(32))))
    r = mem_range(E, st, a[3], K(8), inst, "write")
    if r is None:
        return []
    out = []
    f = st.fork()
    sysm.fails(f, "getaddrinfo")
    rc = fresh("gai", -105, -1)
    # EAI_SYSTEM also sets errno
    e = set_errno(E, f)
    f.g["errs"] = f.g.get("errs", ()) + (("getaddrinfo", rc),)
    f.g.setdefault("err1", ("getaddrinfo", rc))
    log(f, "getaddrinfo", False, st.rp(a[0]), st.rp(a[1]), hint, ())
    out.append((f, rc))
    fam = hint.get("family", 0)
    fams = (AF_INET, AF_INET6) if fam == 0 else (fam,)
    lists = [()]
    done = []
    first = not events(st, "getaddrinfo")
    for _ in range(E.opts.get("ai" if first else "ai2", 2)):
        lists = [l + (x,) for l in lists for x in fams]
        done += lists
    for l in done:
        s = st.fork()
        s.note("getaddrinfo finds %s" % (l,))
        nxt = NULL
        ents = []
        for k, fm in reversed(list(enumerate(l))):
            rid = E.new_region(s, "ext", "addrinfo[%d]" % k, K(AI), "sym")
            n = fresh("addrlen", 16, 28)
            ad = E.new_region(s, "ext", "sockaddr[%d]" % k, n, "sym")
            pr, ty = fresh("protocol", 0, 255), fresh("socktype", 1, 5)
            for o, w, v in ((4, 4, K(fm)), (8, 4, ty), (12, 4, pr), (16, 4, n), (24, 8, Ptr(ad)), (40, 8, nxt)):
                E.write(s, rid, K(o), K(w), v)
            nxt = Ptr(rid)
            ents.insert(0, (fm, ty, pr, ad, n, rid))
        s.g[("ai", nxt.b)] = ("live", tuple(x for en in ents for x in (en[5], en[3])))
        E.write(s, r.b, r.off, K(8), nxt)
        log(s, "getaddrinfo", True, st.rp(a[0]), st.rp(a[1]), hint, tuple(ents))
        out.append((s, ZERO))
    return out


def ais(st, state="live"):
    return [k[1] for k, v in st.g.items() if isinstance(k, tuple) and k[0] == "ai" and v[0] == state]


@model("freeaddrinfo")
def n_freeaddrinfo(E, st, a, inst):
    p = st.rp(a[0]) if isinstance(a[0], Ptr) else E.i2p(st, a[0])
    v = st.g.get(("ai", p.b))
    ok = v is not None and v[0] == "live"
    E.ob(st, "ai", ok, "freeaddrinfo releases a live address list", inst)
    if not ok:
        return []
    st.g[("ai", p.b)] = ("gone", v[1])
    for rid in v[1]:
        st.mem[rid] = st.mem[rid].copy()
        st.mem[rid].live = False
    log(st, "freeaddrinfo", p)
    return [(st, ZERO)]


@model("socket")
def n_socket(E, st, a, inst):
    f = st.fork()
    failing(E, f, "socket")
    args = tuple(st.norm(x) for x in a[:3])
    log(f, "socket", False, *args, None)
    v = fd_new(E, st, "sock")
    log(st, "socket", True, *args, v)
    return [(st, v), (f, K(-1))]


def simple(E, st, v, inst, what, *args):
    """a call on a descriptor that succeeds with 0 or fails with errno"""
    out = []
    for s, x, k in fd_use(E, st, v, inst, what):
        f = s.fork()
        if k is None:
            e = failing(E, f, what, 9, 9)
            log(f, what, False, x, *args, e)
            out.append((f, K(-1)))
            continue
        e = failing(E, f, what)
        log(f, what, False, x, *args, e)
        log(s, what, True, x, *args, None)
        out += [(s, ZERO), (f, K(-1))]
    return out


def addr_of(E, st, p, n, inst):
    """the bytes of an address argument: (Ptr, length)"""
    n = E.as_int(st, n)
    q = mem_range(E, st, p, n, inst, "read")
    return None if q is None else (q, n)


@model("bind", "connect")
def n_addr(E, st, a, inst):
    q = addr_of(E, st, a[1], a[2], inst)
    if q is None:
        return []
    fam = None
    r = st.mem.get(q[0].b)
    if r is not None and not str(r.name).startswith("sockaddr["):
        fam = st.const(E.as_int(st, E.read(st, q[0].b, q[0].off, 2, I(16))))
        h = E.hooks.get("sockaddr")
        if h is not None:
            h(E, st, nm(inst), q[0], q[1], fam, inst)
    return simple(E, st, a[0], inst, nm(inst), q[0], q[1], fam)


@model("listen")
def n_listen(E, st, a, inst):
    return simple(E, st, a[0], inst, "listen", st.norm(a[1]))


@model("shutdown")
def n_shutdown(E, st, a, inst):
    return simple(E, st, a[0], inst, "shutdown", st.norm(a[1]))


@model("setsockopt")
def n_setsockopt(E, st, a, inst):
    n = E.as_int(st, a[4])
    q = mem_range(E, st, a[3], n, inst, "read")
    if q is None:
        return []
    c = st.const(n)
    if c == 16:
        v = tuple(E.as_int(st, E.read(st, q.b, st.cs.norm(q.off + o), 8, I(64))) for o in (0, 8))
    else:
        v = (E.as_int(st, E.read(st, q.b, q.off, c, I(8 * c))),) if c in (1, 4, 8) else ()
    return simple(E, st, a[0], inst, "setsockopt", st.const(E.as_int(st, a[1])), st.const(E.as_int(st, a[2])), v)


@model("getsockopt")
def n_getsockopt(E, st, a, inst):
    lp = mem_range(E, st, a[4], K(4), inst, "read")
    if lp is None:
        return []
    n = E.as_int(st, E.read(st, lp.b, lp.off, 4, I(32)))
    q = mem_range(E, st, a[3], n, inst, "write")
    if q is None:
        return []
    out = []
    lv, on = st.const(E.as_int(st, a[1])), st.const(E.as_int(st, a[2]))
    for s, rc in simple(E, st, a[0], inst, "getsockopt", lv, on):
        if s.const(rc) == 0:
            v = fresh("SO_ERROR", 0, 133) if (lv, on) == (1, 4) else fresh("option", -IMAX - 1, IMAX)
            E.write(s, q.b, q.off, K(4), v)
            ev = s.g["log"][-1]
            s.g["log"] = s.g["log"][:-1] + (ev[:-1] + (v,),)
        out.append((s, rc))
    return out


@model("fcntl", "fcntl64")
def n_fcntl(E, st, a, inst):
    c = st.const(E.as_int(st, a[1]))
    if c == 3:          # F_GETFL
        out = []
        for s, rc in simple(E, st, a[0], inst, "getfl"):
            if s.const(rc) == 0:
                v = fresh("flags", 0, 2 ** 24 - 1)
                ev = s.g["log"][-1]
                s.g["log"] = s.g["log"][:-1] + (ev[:-1] + (v,),)
                rc = v
            out.append((s, rc))
        return out
    if c == 4:          # F_SETFL
        out = []
        for s, v in E.norm_s(st, E.as_int(st, a[2]), 32):
            out += simple(E, s, a[0], inst, "setfl", v)
        return out
    return simple(E, st, a[0], inst, "fcntl", c)


@model("accept", "accept4")
def n_accept(E, st, a, inst):
    for i in (1, 2):
        p = st.rp(a[i]) if isinstance(a[i], Ptr) else E.i2p(st, a[i])
        if p.b != NULLB and mem_range(E, st, p, K(4 if i == 2 else 16), inst, "write") is None:
            return []
    out = []
    fl = st.norm(a[3]) if len(a) > 3 else ZERO
    for s, x, k in fd_use(E, st, a[0], inst, "accept"):
        f = s.fork()
        e = failing(E, f, "accept") if k is not None else failing(E, f, "accept", 9, 9)
        log(f, "accept", False, x, fl, e)
        out.append((f, K(-1)))
        if k is not None:
            v = fd_new(E, s, "accepted")
            log(s, "accept", True, x, fl, v)
            out.append((s, v))
    return out


def transfer(E, st, a, inst, what, rw, flags):
    """send/recv/read/write: [0..n] bytes, or an error"""
    n = E.as_int(st, a[2])
    out = []
    for s0, m in E.norm_u(st, n, 64):
        q = mem_range(E, s0, a[1], m, inst, rw)
        if q is None:
            continue
        fl = s0.norm(a[3]) if flags else None
        for s, x, k in fd_use(E, s0, a[0], inst, what):
            for code in (EINTR, EAGAIN, None):
                f = s.fork()
                if code is None:
                    e = failing(E, f, what)
                    f.cs.add_ne(e - EINTR)
                    f.cs.add_ne(e - EAGAIN)
                else:
                    f.note("%s: errno %d" % (what, code))
                    e = set_errno(E, f, code, code)
                log(f, what, "intr" if code == EINTR else "again" if code else "error", x, q, m, fl, e)
                out.append((f, K(-1)))
            if k is None:
                continue
            z = s.fork()
            if rw == "write" and z.cs.add_ge(m - 1) and not z.cs.bot:
                log(z, what, "eof", x, q, m, fl, ZERO)
                out.append((z, ZERO))
            r = fresh(what, 1)
            if not s.cs.add_ge(m - r) or s.cs.bot:
                continue
            if rw == "write":
                E.write(s, q.b, q.off, r, Havoc("received"))
            log(s, what, "ok", x, q, m, fl, r)
            out.append((s, r))
    return out


@model("send")
def n_send(E, st, a, inst):
    return transfer(E, st, a, inst, "send", "read", True)


@model("recv")
def n_recv(E, st, a, inst):
    return transfer(E, st, a, inst, "recv", "write", True)


@model("write")
def n_write(E, st, a, inst):
    return transfer(E, st, a, inst, "write", "read", False)


@model("read")
def n_read(E, st, a, inst):
    return transfer(E, st, a, inst, "read", "write", False)


@model("sendmsg")
def n_sendmsg(E, st, a, inst):
    q = mem_range(E, st, a[1], K(56), inst, "read")
    if q is None:
        return []
    rd = lambda b, o, n, t: E.read(st, b, o, n, t)
    name = rd(q.b, q.off, 8, PTR)
    nl = E.as_int(st, rd(q.b, st.cs.norm(q.off + 8), 4, I(32)))
    iov = rd(q.b, st.cs.norm(q.off + 16), 8, PTR)
    cnt = st.const(E.as_int(st, rd(q.b, st.cs.norm(q.off + 24), 8, I(64))))
    out = []
    for s, L in E.norm_u(st, nl, 32):
        p = mem_range(E, s, name, L, inst, "read")
        if p is None:
            continue
        parts = []
        bad = cnt is None
        for i in range(cnt or 0):
            io = E.deref(s, iov, inst, "iovec")
            io = mem_range(E, s, Ptr(io.b, s.cs.norm(io.off + 16 * i)), K(16), inst, "read")
            b = E.read(s, io.b, io.off, 8, PTR)
            n = E.as_int(s, E.read(s, io.b, s.cs.norm(io.off + 8), 8, I(64)))
            d = mem_range(E, s, b, n, inst, "read")
            bad = bad or d is None
            parts.append((d, n))
        if bad:
            continue
        if E.hooks.get("sendmsg"):
            E.hooks["sendmsg"](E, s, p, L, inst)
        for t, x, k in fd_use(E, s, a[0], inst, "sendmsg"):
            f = t.fork()
            e = failing(E, f, "sendmsg")
            args = (x, p, L, tuple(parts), t.norm(a[2]))
            log(f, "sendmsg", False, *args, e)
            out.append((f, K(-1)))
            if k is not None:
                log(t, "sendmsg", True, *args, None)
                out.append((t, fresh("sent", 0, IMAX)))
    return out


@model("getenv")
def n_getenv(E, st, a, inst):
    if need_cstr(E, st, a[0], inst) is None:
        return []
    f = st.fork()
    f.note("variable not set")
    log(f, "getenv", False, st.rp(a[0]), None)
    L = fresh("len(env)", 0, 2 ** 40)
    rid = E.new_region(st, "ext", "env", L + 1, "sym")
    st.set_attr(rid, "cstr", (ZERO, L))
    st.set_attr(rid, "param", True)
    w = st.wreg(rid)
    w.ents = w.ents + ((L, ONE, ZERO),)
    log(st, "getenv", True, st.rp(a[0]), (rid, L))
    return [(f, NULL), (st, Ptr(rid))]


@model("unlink", "remove")
def n_unlink(E, st, a, inst):
    if need_cstr(E, st, a[0], inst) is None:
        return []
    f = st.fork()
    f.note("unlink fails")
    set_errno(E, f)
    log(st, "unlink", st.rp(a[0]))
    log(f, "unlink", st.rp(a[0]))
    return [(st, ZERO), (f, K(-1))]


@model("getsockname", "getpeername")
def n_name(E, st, a, inst):
    lp = mem_range(E, st, a[2], K(4), inst, "read")
    if lp is None:
        return []
    cap = E.as_int(st, E.read(st, lp.b, lp.off, 4, I(32)))
    q = mem_range(E, st, a[1], cap, inst, "write")
    if q is None:
        return []
    out = []
    for s, x, k in fd_use(E, st, a[0], inst, nm(inst)):
        f = s.fork()
        if k is None:
            failing(E, f, nm(inst), 9, 9)
        else:
            failing(E, f, nm(inst))
        log(f, nm(inst), False, x, None, None)
        out.append((f, K(-1)))
        if k is None:
            continue
        for fam in (AF_INET, AF_INET6, AF_UNIX, None):
            t = s.fork()
            t.note("address family %s" % fam)
            if fam is None:
                fm = fresh("family", 0, 65535)
                for y in (AF_INET, AF_INET6, AF_UNIX):
                    t.cs.add_ne(fm - y)
                n = fresh("addrlen", 2, 128)
                t.cs.add_ge(cap - n)
                E.write(t, q.b, st.cs.norm(q.off + 2), n - 2, Havoc("address"))
            else:
                fm = K(fam)
                if fam == AF_UNIX:
                    # the kernel stores the path without padding, terminated if there is room; none if unnamed
                    for named in (0, 1):
                        u = t.fork()
                        u.note("named" if named else "unnamed")
                        E.write(u, q.b, q.off, K(2), fm)
                        if named:
                            n = fresh("len(path)", 1, 107)
                            E.write(u, q.b, st.cs.norm(q.off + 2), n, Havoc("path"))
                            E.write(u, q.b, st.cs.norm(q.off + 2 + n), ONE, ZERO)
                            E.write(u, lp.b, lp.off, K(4), n + 3)
                        else:
                            E.write(u, lp.b, lp.off, K(4), K(2))
                        log(u, nm(inst), True, x, fam, q, cap)
                        out.append((u, ZERO))
                    continue
                n = K(16 if fam == AF_INET else 28)
                E.write(t, q.b, st.cs.norm(q.off + 2), n - 2, Havoc("address"))
                port = fresh("sin_port", 0, 65535)
                E.write(t, q.b, st.cs.norm(q.off + 2), K(2), port)
            E.write(t, q.b, q.off, K(2), fm)
            E.write(t, lp.b, lp.off, K(4), n)
            log(t, nm(inst), True, x, fam, q, cap)
            out.append((t, ZERO))
    return out


@model("ntohs", "htons")
def n_swap(E, st, a, inst):
    out = []
    for s, x in E.norm_u(st, E.as_int(st, a[0]), 16):
        x = s.cs.norm(x)
        c = s.const(x)
        out.append((s, K((c >> 8) | ((c & 255) << 8)) if c is not None else V(memo_sym(("swap16", x), "ntohs", 0, 65535))))
    return out


@model("inet_ntop")
def n_ntop(E, st, a, inst):
    af = st.const(E.as_int(st, a[0]))
    need = 16 if af == AF_INET6 else 4
    q = mem_range(E, st, a[1], K(need), inst, "read")
    n = E.as_int(st, a[3])
    d = mem_range(E, st, a[2], n, inst, "write")
    if q is None or d is None:
        return []
    f = st.fork()
    failing(E, f, "inet_ntop")
    log(f, "inet_ntop", False, af, q, None, n)
    L = fresh("len(address)", 2, 45 if af == AF_INET6 else 15)
    if not st.cs.add_ge(n - L - 1) or st.cs.bot:
        return [(f, NULL)]
    E.write(st, d.b, d.off, L, Havoc("text"))
    E.write(st, d.b, st.cs.norm(d.off + L), ONE, ZERO)
    st.set_attr(d.b, "cstr", (d.off, st.cs.norm(d.off + L)))
    log(st, "inet_ntop", True, af, q, d, n)
    return [(st, st.rp(a[2])), (f, NULL)]


@model("pipe", "pipe2")
def n_pipe(E, st, a, inst):
    q = mem_range(E, st, a[0], K(8), inst, "write")
    if q is None:
        return []
    f = st.fork()
    failing(E, f, "pipe")
    r, w = fd_new(E, st, "pipe[0]"), fd_new(E, st, "pipe[1]")
    E.write(st, q.b, q.off, K(4), r)
    E.write(st, q.b, st.cs.norm(q.off + 4), K(4), w)
    log(f, "pipe", False, None, None)
    log(st, "pipe", True, r, w)
    return [(st, ZERO), (f, K(-1))]


@model("epoll_create1", "epoll_create")
def n_epoll_create(E, st, a, inst):
    f = st.fork()
    failing(E, f, "epoll_create1")
    v = fd_new(E, st, "epoll")
    log(st, "epoll_create", True, v)
    return [(st, v), (f, K(-1))]


@model("epoll_ctl")
def n_epoll_ctl(E, st, a, inst):
    op = st.const(E.as_int(st, a[1]))
    p = st.rp(a[3]) if isinstance(a[3], Ptr) else E.i2p(st, a[3])
    ev = data = None
    if p.b != NULLB or op != 2:
        q = mem_range(E, st, p, K(12), inst, "read")
        if q is None:
            return []
        ev = E.as_int(st, E.read(st, q.b, q.off, 4, I(32)))
        data = E.read(st, q.b, st.cs.norm(q.off + 4), 8, PTR)
        data = st.rp(data) if isinstance(data, Ptr) else E.i2p(st, data)
    h = E.hooks.get("epoll_ctl")
    if h is not None:
        h(E, st, inst)
    fd = E.as_int(st, a[2])
    return simple(E, st, a[0], inst, "epoll_ctl", op, st.cs.norm(fd), ev, data)


@model("epoll_wait", "epoll_pwait")
def n_epoll_wait(E, st, a, inst):
    mx = E.as_int(st, a[2])
    q = mem_range(E, st, a[1], mx.scale(12), inst, "write")
    if q is None:
        return []
    E.ob(st, "fd", st.cs.entails_ge(mx - 1), "epoll_wait gets room for at least one event", inst)
    out = []
    for s, x, k in fd_use(E, st, a[0], inst, "epoll_wait"):
        i, f = s.fork(), s.fork()
        i.note("epoll_wait is interrupted")
        set_errno(E, i, EINTR, EINTR)
        log(i, "epoll_wait", "intr", x, st.norm(a[3]), None)
        e = failing(E, f, "epoll_wait")
        f.cs.add_ne(e - EINTR)
        log(f, "epoll_wait", "error", x, st.norm(a[3]), e)
        out += [(i, K(-1)), (f, K(-1))]
        if k is None:
            continue
        n = fresh("events", 0)
        s.cs.add_ge(mx - n)
        E.write(s, q.b, q.off, n.scale(12), Havoc("events"))
        log(s, "epoll_wait", "ok", x, st.norm(a[3]), n)
        out.append((s, n))
    return out
