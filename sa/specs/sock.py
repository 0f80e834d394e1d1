"""Sockets, pipes and the epoll poller."""
from ..spec import *
from .. import sysm, models, netm, bits
from ..sysm import events, get_errno
from ..netm import AF_UNIX, AF_INET, AF_INET6, EAGAIN, EINPROGRESS, EINTR

S, F, PI, PO = "sc_sock", "sc_sock_fd", "sc_sock_pipe", "sc_sock_poll"
NONBLOCK = 0o4000
READ, WRITE, EDGE = 1, 2, 4


def m_snprintf(E, st, a, inst):
    """remembers what was formatted; formatting an address, a port or a path does not fail"""
    sysm.log(st, "format", st.norm(a[0]), st.norm(a[1]), st.rp(a[2]), tuple(st.norm(x) for x in a[3:]))
    return [(s, r) for s, r in models.M["snprintf"](E, st, a, inst) if not s.cs.entails_ge(-r - 1)]


MODELS = dict(sysm.S)
MODELS["snprintf"] = m_snprintf


def post(C, s, cond, msg, detail=None):
    return C.check(s, "post", cond, msg, detail)


def mark(s):
    """forget what happened so far"""
    s.g["log"] = ()
    s.g["errs"] = ()
    s.g["sysfail"] = ()
    s.g.pop("err1", None)


def fdof(C, s, p):
    return C.E.norm_s(s, C.E.as_int(s, C.get(s, p, S, "fdt")), 32)


def sock_fd(C, s, p):
    o, _ = C.foff(S, "fdt")
    fo, fn = C.foff(F, "fd")
    v = C.E.read(s, p.b, s.cs.norm(p.off + o + fo), fn, I(32))
    return s.cs.norm(C.E.norm_s(s, C.E.as_int(s, v), 32)[0][1])


def sock_op(C, s, p):
    o, _ = C.foff(S, "fdt")
    fo, fn = C.foff(F, "op")
    return s.cs.norm(C.E.as_int(s, C.E.read(s, p.b, s.cs.norm(p.off + o + fo), fn, I(32))))


def put_fd(C, s, p, v, op=None):
    o, _ = C.foff(S, "fdt")
    fo, fn = C.foff(F, "fd")
    C.E.write(s, p.b, s.cs.norm(p.off + o + fo), K(fn), v)
    if op is not None:
        fo, fn = C.foff(F, "op")
        C.E.write(s, p.b, s.cs.norm(p.off + o + fo), K(fn), op)


def errtext(C, s, p, fn, extra=()):
    """the message is terminated in its array and names an error of this call"""
    eo, en = C.foff(S, "err")
    t = s.fork()
    for u, r in C.aside("sc_sock_error", [(t, [p])]):
        P = models.need_cstr(C.E, u, r, None)
        if P is not None:
            C.check(u, "err", u.rp(r).b == p.b and u.ge(-P[1] + p.off + eo + en - 1), "the error text is terminated inside its array")
            C.check(u, "err", u.const(C.E.as_int(u, C.byte(u, u.rp(r), K(0)))) != 0, "%s: a failure has an error text" % fn)
    c = events(s, "strerror", "gai_strerror")
    if not c:
        C.check(s, "err", False, "%s: a failure sets the error text" % fn)
        return
    e = c[-1][1]
    good = [w for w, x in tuple(s.g.get("errs", ())) + tuple(extra) if s.eq(e - x) and (w == "getaddrinfo") == (c[-1][0] == "gai_strerror")]
    if not good and s.eq(e - 22) and not s.g.get("errs"):
        good = ["EINVAL"]
    C.check(s, "err", bool(good), "%s: the error text describes an error that occurred" % fn, "errno %s of %s" % (e, [w for w, _ in s.g.get("errs", ())]))


def ret(C, s, r):
    """-> [(state, 0 | -1 | 1)]"""
    out = []
    for t, v in C.E.norm_s(s, C.E.as_int(s, r), 32):
        for u, i in cases(t, [[("eq", v)], [("ge", -v - 1)], [("ge", v - 1)]]):
            out.append((u, (0, -1, 1)[i]))
    return out


def fresh_sock(C, family, blocking):
    st = State()
    p = C.new_struct(st, S, "s")
    C.require("sc_sock_init")
    ty = fresh("type", 0, 2 ** 31 - 1)
    out = []
    for s, _ in C.run("sc_sock_init", [(st, [p, ty, K(blocking), K(family)])]):
        post(C, s, s.eq(sock_fd(C, s, p), -1), "a new socket holds no descriptor")
        post(C, s, s.eq(sock_op(C, s, p)), "a new socket is not polled")
        post(C, s, s.eq(C.get(s, p, S, "family"), family), "init stores the family")
        post(C, s, s.eq(C.get(s, p, S, "blocking"), blocking), "init stores the mode")
        o, _ = C.foff(S, "fdt")
        fo, fn = C.foff(F, "type")
        post(C, s, s.eq(C.E.as_int(s, C.E.read(s, p.b, K(o + fo), fn, I(32))) - ty), "init stores the user's type")
        eo, en = C.foff(S, "err")
        post(C, s, s.const(C.E.as_int(s, C.byte(s, p, K(eo)))) == 0, "a new socket has an empty error text")
        out.append((s, p))
    assert len(out) == 1
    return out[0]


def flags_ok(C, s, fd, blocking):
    """the last F_SETFL on fd turned exactly the non-blocking flag on or off"""
    g = [e for e in events(s, "getfl") if e[1] and s.eq(e[2] - fd)]
    w = [e for e in events(s, "setfl") if e[1] and s.eq(e[2] - fd)]
    if not g or not w:
        return False
    a = bits.unfold(s, g[-1][3], 32)
    b = bits.unfold(s, w[-1][3], 32)
    if a is None or b is None:
        return None
    n = NONBLOCK.bit_length() - 1
    return all(b[i] == a[i] if i != n else b[i] == (0 if blocking else 1) for i in range(32))


def opt_set(s, fd, level, name, val, before=None):
    for e in s.g["log"]:
        if before is not None and e is before:
            return False
        if e[0] == "setsockopt" and e[1] and s.eq(e[2] - fd) and e[3] == level and e[4] == name and len(e[5]) == 1:
            if s.eq(e[5][0] - val):
                return True
    return False


def ai_of(s, sock_ev, ents):
    """the address-list entry a socket() call was made for"""
    for k, (fm, ty, pr, ad, n, rid) in enumerate(ents):
        if s.eq(sock_ev[2] - fm) and s.eq(sock_ev[3] - ty) and s.eq(sock_ev[4] - pr):
            return k
    return None


def watch_un(C, host, L):
    """addresses of the unix family carry exactly the caller's path"""
    E = C.E

    def hook(E, st, what, q, n, fam, inst):
        E.ob(st, "post", fam == AF_UNIX, "%s gets an address of the socket's family" % what, inst)
        if fam != AF_UNIX:
            return
        E.ob(st, "post", st.cs.entails_ge(n - 2 - L - 1) and st.cs.entails_ge(-n + 110), "the address length covers the whole path", inst,
             detail="%s" % n)
        t = st.fork()
        j = C.index(t, L + 1)
        if j is not None:
            for v in C.split(t, q, j + 2):
                for u in C.split(v, host, j):
                    a = E.read(u, q.b, u.cs.norm(q.off + 2 + j), 1, I(8))
                    h = u.rp(host)
                    b = E.read(u, h.b, u.cs.norm(h.off + j), 1, I(8))
                    E.ob(u, "post", C.same(u, E.as_int(u, a), E.as_int(u, b)), "the address holds the caller's path", inst)
    E.hooks["sockaddr"] = hook


def after_fail(C, s, p, fn):
    C.check(s, "fd", not sysm.fds(s), "%s: a failed call leaves no descriptor open" % fn)
    C.check(s, "fd", s.eq(sock_fd(C, s, p), -1), "%s: a failed call leaves no descriptor in the socket" % fn)
    C.check(s, "ai", not netm.ais(s), "%s releases the address list" % fn)


def term_twice(C, s, p):
    """term closes the descriptor once"""
    for was in (s,):
        mark(was)
        fd = sock_fd(C, was, p)
        opened = sysm.fds(was)
        for t, r in C.run("sc_sock_term", [(was, [p])]):
            c = events(t, "close")
            C.check(t, "fd", len(c) == len(opened) and not sysm.fds(t), "term closes the descriptor exactly once")
            C.check(t, "fd", t.eq(sock_fd(C, t, p), -1), "after term no descriptor is recorded")
            for u, o in ret(C, t, r):
                good = all(x[1] for x in c)
                post(C, u, (o == 0) == good and o != 1, "term returns 0 exactly when closing worked")
                if o:
                    C.check(u, "err", bool(events(u, "strerror")), "a failed term sets the error text")
                n = len(u.g["log"])
                for w, r2 in C.run("sc_sock_term", [(u, [p])]):
                    post(C, w, w.eq(r2) and len(w.g["log"]) == n, "terminating again does nothing")


def listen(C, family, blocking, with_term=True):
    C.require("sc_sock_listen", "sc_sock_term", "sc_sock_error")
    E = C.E
    st, p = fresh_sock(C, family, blocking)
    mark(st)
    host, L = C.cstring(st, "host")
    port, _ = C.cstring(st, "port")
    watch_un(C, host, L)
    for s, r in C.run("sc_sock_listen", [(st, [p, host, port])]):
        for t, o in ret(C, s, r):
            post(C, t, o != 1, "listen returns 0 or a negative value")
            if o:
                after_fail(C, t, p, "listen")
                errtext(C, t, p, "listen")
                for e in events(t, "listen"):
                    post(C, t, any(x[1] and t.eq(x[2] - e[2]) for x in events(t, "bind")), "only a socket that was bound is told to listen")
                post(C, t, bool(t.g.get("errs")) or (family == AF_UNIX and t.ge(L - 108)), "listen only fails when something is wrong")
                if family == AF_UNIX and not t.g.get("errs"):
                    post(C, t, not events(t, "unlink"), "a path that is too long removes nothing")
                continue
            fd = sock_fd(C, t, p)
            op = sysm.fds(t)
            C.check(t, "fd", len(op) == 1 and t.eq(op[0] - fd), "a listening socket holds exactly one descriptor")
            C.check(t, "ai", not netm.ais(t), "listen releases the address list")
            b = [e for e in events(t, "bind") if e[1] and t.eq(e[2] - fd)]
            l = [e for e in events(t, "listen") if e[1] and t.eq(e[2] - fd)]
            post(C, t, len(b) == 1 and len(l) == 1, "a listening socket was bound once and listens")
            post(C, t, bool(l) and t.ge(l[0][3] - 1), "the backlog is positive")
            C.check(t, "mode", flags_ok(C, t, fd, blocking), "the descriptor is blocking or non-blocking as asked")
            sk = [e for e in events(t, "socket") if e[1]]
            if len(b) != 1 or not sk:
                continue
            if family == AF_UNIX:
                u = events(t, "unlink")
                post(C, t, len(u) == 1 and t.rp(u[0][1]) == t.rp(host), "the stale socket file is removed, and nothing else")
                post(C, t, t.eq(sk[-1][2] - AF_UNIX) and t.eq(sk[-1][3] - 1), "the socket is a unix stream socket")
                continue
            g = events(t, "getaddrinfo")
            post(C, t, len(g) == 1 and t.rp(g[0][2]) == t.rp(host) and t.rp(g[0][3]) == t.rp(port), "the caller's host and port are looked up")
            post(C, t, g[0][4].get("family") == family and g[0][4].get("type") == 1, "the lookup asks for stream addresses of the family")
            k = ai_of(t, sk[-1], g[0][5])
            post(C, t, k is not None and t.rp(b[0][3]).b == g[0][5][k][3] and t.eq(b[0][4] - g[0][5][k][4]),
                 "the socket is bound to the address it was created for")
            post(C, t, opt_set(t, fd, 1, 2, 1, b[0]), "SO_REUSEADDR is set before bind")
            post(C, t, opt_set(t, fd, 6, 1, 1), "TCP_NODELAY is set")
            if family == AF_INET6:
                post(C, t, opt_set(t, fd, 41, 26, 1, b[0]), "IPV6_V6ONLY is set before bind")
            if with_term:
                term_twice(C, t, p)


def connect(C, family, blocking, frm):
    C.require("sc_sock_connect")
    E = C.E
    st, p = fresh_sock(C, family, blocking)
    mark(st)
    host, L = C.cstring(st, "host")
    port, _ = C.cstring(st, "port")
    sa = C.cstring(st, "src_addr")[0] if frm & 1 else NULL
    sp = C.cstring(st, "src_port")[0] if frm & 2 else NULL
    watch_un(C, host, L)
    for s, r in C.run("sc_sock_connect", [(st, [p, host, port, sa, sp])]):
        for t, o in ret(C, s, r):
            post(C, t, o != 1, "connect returns 0 or a negative value")
            cn = events(t, "connect")
            C.check(t, "ai", not netm.ais(t), "connect releases the address lists")
            g = events(t, "getaddrinfo")
            sk = events(t, "socket")
            ents = g[0][5] if g else ()
            # order of the addresses tried
            if family != AF_UNIX and ents:
                want = [k for k, x in enumerate(ents) if x[0] == family] + [k for k, x in enumerate(ents) if x[0] != family]
                got = [ai_of(t, e, ents) for e in sk]
                post(C, t, got == want[:len(got)], "addresses of the socket's family are tried first, each once, in order", "%s of %s" % (got, want))
                for e in cn:
                    k = [i for i, x in enumerate(ents) if t.rp(e[3]).b == x[3] and t.eq(e[4] - x[4])]
                    mine = [x for x in sk if x[1] and t.eq(x[5] - e[2])]
                    post(C, t, bool(k) and bool(mine) and ai_of(t, mine[0], ents) == k[0], "each socket is connected to the address it was created for")
                post(C, t, t.rp(g[0][2]) == t.rp(host) and t.rp(g[0][3]) == t.rp(port), "the caller's destination is looked up")
                post(C, t, g[0][4].get("type") == 1, "the lookup asks for stream addresses")
                for e in cn:
                    C.check(t, "mode", flags_ok(C, t, e[2], blocking), "the descriptor is blocking or non-blocking before connect")
                    post(C, t, opt_set(t, e[2], 6, 1, 1), "TCP_NODELAY is set")
                    if frm:
                        b = [x for x in t.g["log"][:t.g["log"].index(e)] if x[0] == "bind" and x[1] and t.eq(x[2] - e[2])]
                        gs = g[1:]
                        ok = len(b) == 1 and any(t.rp(b[0][3]).b == x[3] and t.eq(b[0][4] - x[4]) for y in gs for x in y[5])
                        post(C, t, ok, "the socket is bound to the source address before it is connected")
                if frm:
                    for y in g[1:]:
                        post(C, t, t.rp(y[2]) == t.rp(sa) and t.rp(y[3]) == t.rp(sp), "the caller's source is looked up")
                else:
                    post(C, t, len(g) == 1 and not events(t, "bind"), "without a source nothing is bound")
            if o == 0:
                fd = sock_fd(C, t, p)
                op = sysm.fds(t)
                C.check(t, "fd", len(op) == 1 and t.eq(op[0] - fd), "a connected socket holds exactly one descriptor")
                post(C, t, bool(cn) and cn[-1][1] and t.eq(cn[-1][2] - fd), "connect returns 0 only when the connection was made")
                if family == AF_UNIX:
                    C.check(t, "mode", flags_ok(C, t, fd, blocking), "the descriptor is blocking or non-blocking as asked")
                else:
                    mine = [x for x in sk if x[1] and t.eq(x[5] - fd)]
                    post(C, t, bool(mine) and t.eq(C.get(t, p, S, "family") - mine[0][2]), "the socket records the family it connected with")
                continue
            last = cn[-1] if cn else None
            pend = []
            if last is not None and not last[1] and family != AF_UNIX and not blocking:
                pend = cases(t, [[("eq", last[-1] - EAGAIN)], [("eq", last[-1] - EINPROGRESS)],
                                 [("ne", last[-1] - EAGAIN), ("ne", last[-1] - EINPROGRESS)]])
            for u, i in pend or [(t, 2)]:
                if i < 2:
                    fd = sock_fd(C, u, p)
                    op = sysm.fds(u)
                    C.check(u, "fd", len(op) == 1 and u.eq(op[0] - fd) and u.eq(fd - last[2]), "a connection in progress keeps its descriptor")
                    post(C, u, u.eq(get_errno(E, u) - EAGAIN), "a connection in progress is reported as EAGAIN")
                else:
                    after_fail(C, u, p, "connect")
                    errtext(C, u, p, "connect", [("close", x[3]) for x in events(u, "close") if not x[1]])
                    if family != AF_UNIX and ents and not [x for x in u.g["errs"] if x[0] in ("getfl", "setfl", "setsockopt", "getaddrinfo", "bind")]:
                        post(C, u, len(sk) == len(ents), "connect gives up only after every address failed")


def accept(C, family, blocking):
    C.require("sc_sock_accept")
    E = C.E
    st, p = fresh_sock(C, family, blocking)
    mark(st)
    lf = sysm.fd_new(E, st, "listener")
    put_fd(C, st, p, lf)
    q = C.new_struct(st, S, "in")
    eo, en = C.foff(S, "err")
    for s, r in C.run("sc_sock_accept", [(st, [p, q])]):
        ac = events(s, "accept")
        post(C, s, len(ac) == 1 and s.eq(ac[0][2] - lf), "accept takes one connection from the listener")
        C.check(s, "fd", s.eq(sock_fd(C, s, p) - lf) and s.g[sysm.fd_key(s, lf)] == "open", "the listener stays as it is")
        got = [x for x in sysm.fds(s) if not s.eq(x - lf)]
        for t, o in ret(C, s, r):
            post(C, t, o != 1, "accept returns 0 or a negative value")
            if o == 0:
                fd = sock_fd(C, t, q)
                C.check(t, "fd", len(got) == 1 and ac[0][1] and t.eq(fd - got[0]), "an accepted socket holds the new descriptor")
                C.check(t, "mode", flags_ok(C, t, fd, blocking), "an accepted socket has the listener's mode")
                post(C, t, t.eq(sock_op(C, t, q)), "an accepted socket is not polled yet")
                post(C, t, t.eq(C.get(t, q, S, "family"), family), "an accepted socket has the listener's family")
                post(C, t, family == AF_UNIX or opt_set(t, fd, 6, 1, 1), "TCP_NODELAY is set")
                continue
            C.check(t, "fd", not got, "a failed accept leaves no descriptor open")
            if ac and ac[0][1]:
                C.check(t, "fd", t.eq(sock_fd(C, t, q), -1), "a failed accept leaves no descriptor in the new socket")
                errtext(C, t, p, "accept")
                continue
            for u, i in cases(t, [[("eq", ac[0][4] - EAGAIN)], [("ne", ac[0][4] - EAGAIN)]]):
                post(C, u, u.eq(get_errno(E, u) - ac[0][4]), "a failed accept leaves the reason in errno")
                if i or blocking:
                    errtext(C, u, p, "accept")


def transfer(C, fn, call):
    C.require("sc_sock_" + fn)
    E = C.E
    st, p = fresh_sock(C, AF_INET, 0)
    mark(st)
    fd = sysm.fd_new(E, st, "fd")
    put_fd(C, st, p, fd)
    n = fresh("len", -2 ** 31, 2 ** 31 - 1)
    size = fresh("buffer", 0, 2 ** 31 - 1)
    st.cs.add_ge(size - n)
    buf = C.block(st, "buf", size)
    fl = fresh("flags", 0, 2 ** 31 - 1)
    for s, r in C.run("sc_sock_" + fn, [(st, [p, buf, n, fl])]):
        ev = events(s, call)
        C.check(s, "fd", s.eq(sock_fd(C, s, p) - fd) and len(sysm.fds(s)) == 1, "%s keeps the descriptor" % fn)
        if not ev:
            post(C, s, s.ge(-n) and s.eq(E.as_int(s, r) - n), "only a length that is not positive transfers nothing")
            continue
        post(C, s, s.ge(n - 1), "nothing is transferred for a length that is not positive")
        post(C, s, all(e[1] == "intr" for e in ev[:-1]) and ev[-1][1] != "intr", "an interrupted call is repeated until it is done, and only that",
             [e[1] for e in ev])
        for e in ev:
            post(C, s, s.eq(e[2] - fd) and s.rp(e[3]) == s.rp(buf) and s.eq(e[4] - n) and s.eq(e[5] - fl), "%s gets the caller's buffer, length and flags" % call)
        e = ev[-1]
        for t, v in E.norm_s(s, E.as_int(s, r), 32):
            if e[1] == "ok":
                post(C, t, t.eq(v - e[6]), "the number of bytes transferred is returned")
            else:
                post(C, t, t.ge(-v - 1), "an error or the end of the stream gives a negative value")
            if e[1] == "again":
                post(C, t, t.eq(get_errno(E, t) - EAGAIN), "a call that would block leaves EAGAIN in errno")
            if e[1] == "eof":
                post(C, t, not t.eq(get_errno(E, t) - EAGAIN), "the end of the stream is not EAGAIN")
                post(C, t, t.ge(-get_errno(E, t) - 1) or t.ge(get_errno(E, t) - 1), "the end of the stream sets errno")
            if e[1] == "error":
                post(C, t, t.eq(get_errno(E, t) - e[6]), "a failed call leaves the reason in errno")
                errtext(C, t, p, fn)


def options(C):
    C.require("sc_sock_set_rcvtimeo", "sc_sock_set_sndtimeo", "sc_sock_finish_connect", "sc_sock_set_blocking", "sc_sock_error")
    E = C.E

    def one():
        st, p = fresh_sock(C, AF_INET, 1)
        mark(st)
        fd = sysm.fd_new(E, st, "fd")
        put_fd(C, st, p, fd)
        return st, p, fd
    for fn, opt in (("sc_sock_set_rcvtimeo", 20), ("sc_sock_set_sndtimeo", 21)):
        st, p, fd = one()
        ms = fresh("ms", 0, 2 ** 31 - 1)
        for s, r in C.run(fn, [(st, [p, ms])]):
            e = events(s, "setsockopt")
            post(C, s, len(e) == 1 and s.eq(e[0][2] - fd) and e[0][3] == 1 and e[0][4] == opt and len(e[0][5]) == 2, "%s sets its option" % fn)
            if len(e) == 1 and len(e[0][5]) == 2:
                sec, us = e[0][5]
                for t, sec in E.norm_s(s, sec, 64):
                    for u, us1 in E.norm_s(t, us, 64):
                        post(C, u, u.eq(sec.scale(1000000) + us1 - ms.scale(1000)), "the timeout is the time asked for", "%s s + %s us" % (sec, us1))
                        post(C, u, u.ge(us1) and u.ge(-us1 + 999999), "the microseconds are below a second")
            for t, o in ret(C, s, r):
                post(C, t, (o == 0) == (len(e) == 1 and e[0][1]) and o != 1, "%s returns 0 exactly when the option was set" % fn)
                if o:
                    errtext(C, t, p, fn)
    st, p, fd = one()
    for s, r in C.run("sc_sock_finish_connect", [(st, [p])]):
        e = events(s, "getsockopt")
        post(C, s, len(e) == 1 and s.eq(e[0][2] - fd) and (e[0][3], e[0][4]) == (1, 4), "the pending error of the socket is asked for")
        if len(e) != 1:
            continue
        v = e[0][5]
        for t, o in ret(C, s, r):
            for u, i in cases(t, [[("eq", v)], [("ne", v)]]):
                good = e[0][1] and i == 0
                post(C, u, (o == 0) == good and o != 1, "finish_connect returns 0 exactly when the connection was made")
                if o:
                    errtext(C, u, p, "finish_connect", (("SO_ERROR", v),))
                    post(C, u, u.eq(get_errno(E, u) - v) or not e[0][1], "the reason is left in errno")
        C.check(s, "fd", s.eq(sock_fd(C, s, p) - fd) and len(sysm.fds(s)) == 1, "finish_connect keeps the descriptor")
    for b in (0, 1):
        st, p, fd = one()
        for s, r in C.run("sc_sock_set_blocking", [(st, [p, K(b)])]):
            for t, o in ret(C, s, r):
                bad = bool(t.g.get("errs"))
                post(C, t, (o == 0) == (not bad) and o != 1, "set_blocking returns 0 exactly when it worked")
                if o:
                    errtext(C, t, p, "set_blocking")
                else:
                    C.check(t, "mode", flags_ok(C, t, fd, b), "set_blocking changes exactly the non-blocking flag")
    for f in ("sc_sock_startup", "sc_sock_cleanup"):
        C.require(f)
        for s, r in C.run(f, [(State(), [])]):
            post(C, s, s.eq(r), "%s has nothing to do here and succeeds" % f)
    st, p, fd = one()
    eo, en = C.foff(S, "err")
    E.write(st, p.b, K(eo), K(en), Havoc("text"))
    for s, r in C.run("sc_sock_error", [(st, [p])]):
        q = s.rp(r)
        C.check(s, "err", q.b == p.b and s.eq(q.off - eo), "the error text is the socket's own")
        C.check(s, "err", s.const(E.as_int(s, C.byte(s, p, K(eo + en - 1)))) == 0, "the error text is terminated")


def strings(C, fn, zero_fd=False):
    C.require("sc_sock_local_str", "sc_sock_remote_str", "sc_sock_print")
    E = C.E
    st, p = fresh_sock(C, AF_INET, 1)
    mark(st)
    fd = sysm.fd_new(E, st, "fd")
    put_fd(C, st, p, fd)
    n = fresh("size", 1, 2 ** 31 - 1)
    buf = C.block(st, "buf", n)
    call = "getpeername" if fn == "remote_str" else "getsockname"
    for s, r in C.run("sc_sock_" + fn, [(st, [p, buf, n])]):
        if fn != "print":
            ev = events(s, "getsockname", "getpeername")
            post(C, s, len(ev) == 1 and ev[0][0] == call and s.eq(ev[0][2] - fd), "%s asks for the right end of the connection" % fn)
            if len(ev) != 1:
                continue
            ok = not s.isnull(r)
            bad = bool(s.g.get("errs"))
            for e in events(s, "inet_ntop"):
                post(C, s, s.ge(e[5] - (46 if e[2] == AF_INET6 else 16)), "there is room for every address")
            post(C, s, ok != bad, "%s returns NULL exactly when an address is not available" % fn)
            if bad:
                post(C, s, s.const(E.as_int(s, C.byte(s, buf))) == 0, "the text is empty when there is no address")
                errtext(C, s, p, fn)
                continue
            post(C, s, s.rp(r) == s.rp(buf), "%s returns the caller's buffer" % fn)
            fam = ev[0][3]
            post(C, s, s.ge(ev[0][5] - {AF_INET: 16, AF_INET6: 28, AF_UNIX: 110}.get(fam, 16)), "there is room for the whole address of the socket")
            f = events(s, "format")
            nt = events(s, "inet_ntop")
            if fam in (AF_INET, AF_INET6):
                st_off = 4 if fam == AF_INET else 8
                q = s.rp(ev[0][4])
                post(C, s, len(nt) == 1 and nt[0][2] == fam and s.rp(nt[0][3]) == Ptr(q.b, s.cs.norm(q.off + st_off)), "the address printed is the socket's")
                good = len(f) == 1 and len(f[0][4]) == 2 and s.rp(f[0][1]) == s.rp(buf) and s.eq(f[0][2] - n)
                post(C, s, good, "the text is written to the caller's buffer with its size")
                if good and len(nt) == 1:
                    post(C, s, isinstance(f[0][4][0], Ptr) and nt[0][4] is not None and s.rp(f[0][4][0]) == s.rp(nt[0][4]), "the address is printed")
                    d = lin.SYMS[E.as_int(s, f[0][4][1]).t[0][0]] if isinstance(f[0][4][1], Lin) and f[0][4][1].t else None
                    post(C, s, d is not None and d.name.startswith("ntohs"), "the port is printed in host byte order")
        if s.g.get("fmtfail"):
            continue
        P = models.need_cstr(E, s, buf, None)
        if P is not None:
            C.check(s, "err", s.ge(n - P[1] - 1), "the text is terminated inside the buffer")
        C.check(s, "fd", s.eq(sock_fd(C, s, p) - fd) and len(sysm.fds(s)) == 1, "%s keeps the descriptor" % fn)


def systemd(C):
    C.require("sc_sock_notify_systemd")
    E = C.E
    st = State()
    msg, L = C.cstring(st, "msg")

    def named(E, st, q, nl, inst):
        env = [e for e in events(st, "getenv") if e[1]]
        E.ob(st, "post", len(env) == 1, "the message goes to the name in the environment", inst)
        if len(env) != 1:
            return
        rid, n = env[0][3]
        rd = lambda s, b, o: E.as_int(s, E.read(s, b, s.cs.norm(o), 1, I(8)))
        fam = E.as_int(st, E.read(st, q.b, q.off, 2, I(16)))
        E.ob(st, "post", st.eq(fam - AF_UNIX), "the address is a unix address", inst)
        for s in C.split(st.fork(), q, K(2)):
            for u in C.split(s, Ptr(rid, ZERO), ZERO):
                for v, c in E.norm_u(u, rd(u, rid, ZERO), 8):
                    first = E.as_int(v, rd(v, q.b, q.off + 2))
                    for w, k in cases(v, [[("eq", c - ord("@"))], [("eq", c - ord("/"))], [("ge", c - ord("/") - 1), ("ne", c - ord("@"))], [("ge", -c + ord("/") - 1)]]):
                        if k == 0:
                            E.ob(w, "post", w.eq(first), "a name that starts with @ is in the abstract name space", inst)
                            E.ob(w, "post", w.eq(nl - n - 2), "an abstract name is used in its exact length", inst)
                        elif k == 1:
                            E.ob(w, "post", w.eq(first - c), "a path is used as it stands", inst)
                        else:
                            E.ob(w, "post", False, "names that start with neither @ nor / are refused", inst)
        E.ob(st, "post", st.ge(n - 2) and st.ge(-n + 107), "empty names and names that do not fit are refused", inst)
        t = st.fork()
        j = C.index(t, n - 1)
        if j is not None:
            for v in C.split(t, q, j + 3):
                for u in C.split(v, Ptr(rid, ZERO), j + 1):
                    E.ob(u, "post", C.same(u, rd(u, q.b, q.off + 3 + j), rd(u, rid, j + 1)), "the address holds the name from the environment", inst)
    E.hooks["sendmsg"] = named
    for s, r in C.run("sc_sock_notify_systemd", [(st, [msg])]):
        C.check(s, "fd", not sysm.fds(s), "notify_systemd closes its descriptor")
        sm = events(s, "sendmsg")
        sk = events(s, "socket")
        ge = events(s, "getenv")
        post(C, s, len(ge) == 1, "the socket name is taken from the environment")
        for t, o in ret(C, s, r):
            post(C, t, o != 1, "notify_systemd returns 0 or a negative value")
            post(C, t, (o == 0) == (len(sm) == 1 and sm[0][1]), "notify_systemd returns 0 exactly when the message was sent")
            if o and not sk:
                post(C, t, t.eq(get_errno(E, t) - 22), "a name that cannot be used is EINVAL")
                if ge and ge[0][1]:
                    rid, n = ge[0][3]
                    for u in C.split(t.fork(), Ptr(rid, ZERO), ZERO):
                        c = E.as_int(u, E.read(u, rid, ZERO, 1, I(8)))
                        for v, k in cases(u, [[("eq", c - ord("@"))], [("eq", c - ord("/"))]]):
                            if v.cs.add_ge(n - 2) and v.cs.add_ge(-n + 107) and not v.cs.bot:
                                post(C, v, False, "a name that fits is not refused")
        if not sm or not ge[0][1]:
            post(C, s, bool(ge[0][1]) or not sk, "without a name nothing is opened")
            continue
        rid, n = ge[0][3]
        _, ok, x, name, nl, parts, fl, e = sm[0]
        post(C, s, s.ge(nl - n - 2) and s.ge(-nl + n + 3) and s.ge(-nl + 110), "the name is used in its full length", "%s for %s" % (nl, n))
        post(C, s, len(parts) == 1 and s.rp(parts[0][0]) == s.rp(msg) and s.eq(parts[0][1] - L), "the whole message is sent")
        post(C, s, bool((s.const(fl) or 0) & 0x4000), "a closed peer does not raise SIGPIPE")
        post(C, s, s.eq(sk[0][2] - AF_UNIX) and s.eq(sk[0][3] - 2), "a unix datagram socket is used")


# ---------------------------------------------------------------- pipe
def pipe_fd(C, s, p, f="fds", i=0):
    if f == "fdt":
        o, _ = C.foff(PI, "fdt")
        o += C.foff(F, "fd")[0]
    else:
        o, _ = C.foff(PI, "fds")
        o += 4 * i
    return s.cs.norm(C.E.as_int(s, C.E.read(s, p.b, s.cs.norm(p.off + o), 4, I(32))))


def pipe_err(C, s, p, fn):
    eo, en = C.foff(PI, "err")
    for u, r in C.aside("sc_sock_pipe_err", [(s.fork(), [p])]):
        C.check(u, "err", u.rp(r).b == p.b, "%s: the error text is the pipe's own" % fn)
        P = models.need_cstr(C.E, u, r, None)
        if P is not None:
            C.check(u, "err", u.rp(r).b != p.b or u.ge(-P[1] + p.off + eo + en - 1), "%s: the error text is terminated inside its array" % fn)
        C.check(u, "err", P is None or u.const(C.E.as_int(u, C.byte(u, u.rp(r), ZERO))) != 0, "%s: a failure has an error text" % fn)
    c = events(s, "strerror")
    C.check(s, "err", bool(c), "%s: a failure sets the error text" % fn)


def pipes(C):
    C.require("sc_sock_pipe_init", "sc_sock_pipe_term", "sc_sock_pipe_err")
    E = C.E
    st = State()
    p = C.new_struct(st, PI, "p")
    ty = fresh("type", 0, 2 ** 31 - 1)
    for s, r in C.run("sc_sock_pipe_init", [(st, [p, ty])]):
        ev = events(s, "pipe")
        for t, o in ret(C, s, r):
            post(C, t, o != 1 and (o == 0) == (len(ev) == 1 and ev[0][1]), "init returns 0 exactly when the pipe was made")
            if o:
                pipe_err(C, t, p, "init")
                C.check(t, "fd", not sysm.fds(t), "a failed init leaves nothing open")
                k = len(t.g["log"])
                for u, r2 in C.run("sc_sock_pipe_term", [(t, [p])]):
                    post(C, u, u.eq(r2) and len(u.g["log"]) == k, "term after a failed init does nothing")
                continue
            C.check(t, "fd", len(sysm.fds(t)) == 2 and t.eq(pipe_fd(C, t, p) - ev[0][2]) and t.eq(pipe_fd(C, t, p, i=1) - ev[0][3]), "both ends are recorded")
            post(C, t, t.eq(pipe_fd(C, t, p, "fdt") - ev[0][2]), "the end that is polled is the one that is read")
            o1 = C.foff(PI, "fdt")[0]
            rd = lambda f: E.as_int(t, E.read(t, p.b, K(o1 + C.foff(F, f)[0]), 4, I(32)))
            post(C, t, t.eq(rd("type") - ty), "init stores the user's type")
            post(C, t, t.eq(rd("op")), "a new pipe is not polled")
            mark(t)
            for u, r2 in C.run("sc_sock_pipe_term", [(t, [p])]):
                c = events(u, "close")
                C.check(u, "fd", len(c) == 2 and not sysm.fds(u), "term closes both ends, once each, also when closing one fails")
                for v, o2 in ret(C, u, r2):
                    post(C, v, (o2 == 0) == all(x[1] for x in c) and o2 != 1, "term returns 0 exactly when closing worked")
                    if o2:
                        pipe_err(C, v, p, "term")
                    k = len(v.g["log"])
                    for w, r3 in C.run("sc_sock_pipe_term", [(v, [p])]):
                        post(C, w, w.eq(r3) and len(w.g["log"]) == k, "terminating again does nothing")


def pipe_io(C, fn):
    call = fn
    C.require("sc_sock_pipe_" + fn)
    E = C.E
    st = State()
    p = C.new_struct(st, PI, "p")
    fd = [sysm.fd_new(E, st, "pipe[%d]" % i) for i in (0, 1)]
    o, _ = C.foff(PI, "fds")
    for i in (0, 1):
        E.write(st, p.b, K(o + 4 * i), K(4), fd[i])
    n = fresh("len", 0, 2 ** 31 - 1)
    buf = C.block(st, "buf", n)
    for s, r in C.run("sc_sock_pipe_" + fn, [(st, [p, buf, n])]):
        ev = events(s, call)
        post(C, s, bool(ev) and all(e[1] == "intr" for e in ev[:-1]) and ev[-1][1] != "intr", "an interrupted call is repeated until it is done, and only that")
        for e in ev:
            post(C, s, s.eq(e[2] - fd[0 if fn == "read" else 1]) and s.rp(e[3]) == s.rp(buf) and s.eq(e[4] - n), "%s gets the right end, the caller's buffer and length" % fn)
        if not ev:
            continue
        e = ev[-1]
        for t, v in E.norm_s(s, E.as_int(s, r), 32):
            if e[1] in ("ok", "eof"):
                post(C, t, t.eq(v - e[6]), "the number of bytes transferred is returned")
            else:
                post(C, t, t.ge(-v - 1), "an error gives a negative value")
        C.check(s, "fd", len(sysm.fds(s)) == 2, "%s keeps both ends" % fn)


# ---------------------------------------------------------------- poll
EV = ((READ, 0x1), (WRITE, 0x4), (EDGE, 0x80000000))
ALWAYS = 0x8 | 0x10 | 0x2000


def poll_text(C, s, p, fn):
    C.check(s, "err", bool(events(s, "strerror")), "%s: a failure sets the error text" % fn)
    for u, r in C.aside("sc_sock_poll_err", [(s.fork(), [p])]):
        P = models.need_cstr(C.E, u, r, None)
        C.check(u, "err", P is None or u.const(C.E.as_int(u, C.byte(u, u.rp(r), ZERO))) != 0, "%s: a failure has an error text" % fn)


def poll_life(C):
    C.require("sc_sock_poll_init", "sc_sock_poll_term", "sc_sock_poll_wait", "sc_sock_poll_err")
    E = C.E
    st = State()
    p = C.new_struct(st, PO, "poll")
    for s, r in C.run("sc_sock_poll_init", [(st, [p])]):
        for t, o in ret(C, s, r):
            post(C, t, o != 1, "init returns 0 or a negative value")
            if o:
                C.check(t, "fd", not sysm.fds(t) and not C.leaks(t, [p]) , "a failed init keeps nothing")
                ev = C.getp(t, p, PO, "events")
                C.check(t, "fd", t.isnull(ev), "a failed init holds no event array")
                poll_text(C, t, p, "init")
                k = len(t.g["log"])
                for u, r2 in C.run("sc_sock_poll_term", [(t, [p])]):
                    post(C, u, u.eq(r2) and len(u.g["log"]) == k, "term after a failed init does nothing")
                continue
            fds = sysm.fds(t)
            f = t.cs.norm(E.as_int(t, C.get(t, p, PO, "fds")))
            C.check(t, "fd", len(fds) == 1 and t.eq(fds[0] - f), "the poller holds its descriptor")
            mark(t)
            ms = fresh("timeout", -1, 2 ** 31 - 1)
            for u, n in C.run("sc_sock_poll_wait", [(t.fork(), [p, ms])]):
                ev = events(u, "epoll_wait")
                post(C, u, bool(ev) and all(e[1] == "intr" for e in ev[:-1]) and ev[-1][1] != "intr", "an interrupted wait is repeated")
                post(C, u, all(u.eq(e[3] - ms) and u.eq(e[2] - f) for e in ev), "wait uses the poller's descriptor and the caller's timeout")
                if not ev:
                    continue
                for v, x in E.norm_s(u, E.as_int(u, n), 32):
                    if ev[-1][1] == "ok":
                        post(C, v, v.eq(x - ev[-1][4]), "wait returns the number of events")
                    else:
                        post(C, v, v.ge(-x - 1), "a failed wait gives a negative value")
                        poll_text(C, v, p, "wait")
                C.check(u, "fd", len(sysm.fds(u)) == 1, "wait keeps the descriptor")
                if ev[-1][1] == "ok":
                    # every event reported can be read
                    i = C.index(u, ev[-1][4])
                    if i is not None:
                        C.run("sc_sock_poll_event", [(u.fork(), [p, i])])
                        C.run("sc_sock_poll_data", [(u.fork(), [p, i])])
            for u, r2 in C.run("sc_sock_poll_term", [(t.fork(), [p])]):
                c = events(u, "close")
                C.check(u, "fd", len(c) == 1 and not sysm.fds(u), "term closes the descriptor once")
                C.check(u, "leak", not [x for x in C.leaks(u, [])], "term releases the event array")
                for v, o2 in ret(C, u, r2):
                    post(C, v, (o2 == 0) == all(x[1] for x in c) and o2 != 1, "term returns 0 exactly when closing worked")
                    if o2:
                        poll_text(C, v, p, "term")
                    k = len(v.g["log"])
                    for w, r3 in C.run("sc_sock_poll_term", [(v.fork(), [p])]):
                        post(C, w, w.eq(r3) and len(w.g["log"]) == k, "terminating again does nothing")
                    for w, n in C.run("sc_sock_poll_wait", [(v, [p, ms])]):
                        post(C, w, not events(w, "epoll_wait") and w.ge(-n - 1), "waiting after term is refused")


def expected(mask):
    w = ALWAYS
    for a, b in EV:
        if mask & a:
            w |= b
    return w


def poll_change(C, fn):
    """all 8 x 8 combinations of the registered and the given mask"""
    C.require("sc_sock_poll_" + fn)
    E = C.E
    for old in range(8):
        if old == EDGE:
            continue                    # never registered alone
        for m in range(8):
            st = State()
            p = C.new_struct(st, PO, "poll")
            ep = sysm.fd_new(E, st, "epoll")
            C.put(st, p, PO, "fds", ep)
            fdt = C.new_struct(st, F, "fdt")
            fd = fresh("fd", 0, 2 ** 31 - 1)
            ty = fresh("type", 0, 2 ** 31 - 1)
            C.put(st, fdt, F, "fd", fd)
            C.put(st, fdt, F, "op", K(old))
            C.put(st, fdt, F, "type", ty)
            data = C.block(st, "data", K(8))
            new = old | m if fn == "add" else old & ~m
            if new == EDGE:
                new = 0

            def hook(E, st, inst):
                v = E.as_int(st, C.get(st, fdt, F, "op"))
                E.ob(st, "order", st.const(st.cs.norm(v)) == new, "the socket's mask is up to date before the kernel is told", inst)
            E.hooks["epoll_ctl"] = hook
            for s, r in C.run("sc_sock_poll_" + fn, [(st, [p, fdt, K(m), data])]):
                c = events(s, "epoll_ctl")
                op = s.const(s.cs.norm(E.as_int(s, C.get(s, fdt, F, "op"))))
                post(C, s, s.eq(C.get(s, fdt, F, "fd") - fd) and s.eq(E.norm_s(s, C.get(s, fdt, F, "type"), 32)[0][1] - ty), "descriptor and type are left alone")
                for t, o in ret(C, s, r):
                    post(C, t, o != 1, "%s returns 0 or a negative value" % fn)
                    if new == old:
                        post(C, t, not c and o == 0 and op == old, "a mask that does not change makes no call")
                        continue
                    want = 1 if old == 0 else 2 if new == 0 else 3
                    post(C, t, len(c) == 1, "a mask that changes makes one call", "%d -> %d" % (old, new))
                    if len(c) != 1:
                        continue
                    _, ok, x, kop, kfd, ev, d, e = c[0]
                    post(C, t, kop == want, "the kernel is told to add, modify or remove", "%d -> %d: %s" % (old, new, kop))
                    post(C, t, t.eq(kfd - fd) and t.eq(x - ep), "the kernel is told about the right descriptor")
                    post(C, t, (o == 0) == ok, "%s returns 0 exactly when the kernel agreed" % fn)
                    if want != 2:
                        post(C, t, ev is not None and t.const(ev) == expected(new), "the kernel watches exactly the new mask", "%d: %s" % (new, ev))
                        post(C, t, d is not None and t.sameptr(d, data), "the kernel keeps the caller's data")
                    C.check(t, "sync", op == (new if ok else old), "the socket's mask is what the kernel watches", "%d -> %d: %s" % (old, new, op))
                    if o:
                        poll_text(C, t, p, fn)


def poll_event(C, lo, hi):
    """every combination of the seven event bits that matter, other bits arbitrary"""
    C.require("sc_sock_poll_event", "sc_sock_poll_data")
    E = C.E
    BITS = (0x1, 0x4, 0x8, 0x10, 0x2000)
    st = State()
    p = C.new_struct(st, PO, "poll")
    n = fresh("n", 1, 1024)
    i = fresh("i", 0)
    st.cs.add_ge(n - i - 1)
    ev = C.block(st, "events", n.scale(12))
    C.put(st, p, PO, "events", ev)
    d = C.block(st, "data", K(8))
    for b in range(lo, hi):
        mask = sum(x for k, x in enumerate(BITS) if b >> k & 1)
        for other in (0, 0x2 | 0x20 | 0x40 | 0x80000000):
            s0 = st.fork()
            E.write(s0, ev.b, s0.cs.norm(i.scale(12)), K(4), K(mask | other))
            E.write(s0, ev.b, s0.cs.norm(i.scale(12) + 4), K(8), d)
            want = 3 if mask & ALWAYS else (READ if mask & 1 else 0) | (WRITE if mask & 4 else 0)
            for s, r in C.run("sc_sock_poll_event", [(s0.fork(), [p, i])]):
                post(C, s, s.const(E.as_int(s, r)) == want, "events are reported as read and write, a closed peer as both", "%x -> %s" % (mask, r))
            for s, r in C.run("sc_sock_poll_data", [(s0, [p, i])]):
                post(C, s, s.sameptr(r, d), "an event carries the caller's data")
