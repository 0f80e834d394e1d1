"""Memory mapped files."""
from ..spec import *
from .. import sysm, models
from ..sysm import events

MODELS = sysm.S
S = "sc_mmap"


def post(C, s, cond, msg, detail=None):
    return C.check(s, "post", cond, msg, detail)


def errtext(C, s, m, fn):
    """the message is terminated inside its array and describes the error that made the call fail"""
    eo, en = C.foff(S, "err")
    t = s.fork()
    for u, r in C.aside("sc_mmap_err", [(t, [m])]):
        P = models.need_cstr(C.E, u, r, None)
        if P is None:
            C.check(u, "err", False, "the error text is terminated inside its array")
        else:
            C.check(u, "err", u.rp(r).b == m.b and u.ge(-P[1] + m.off + eo + en - 1), "the error text is terminated inside its array")
            C.check(u, "err", u.const(C.E.as_int(u, C.byte(u, u.rp(r), K(0)))) != 0, "%s: a failure has an error text" % fn)
    e = s.g.get("err1")
    if e is not None:
        c = events(s, "strerror")
        C.check(s, "err", bool(c) and s.eq(c[-1][1] - e[1]), "%s: the error text describes the error that made the call fail" % fn,
                "%s failed" % e[0])


def ret(C, s, r, fn):
    """0 exactly when nothing failed, else negative"""
    bad = bool(s.g.get("sysfail"))
    out = []
    for t, v in C.E.norm_s(s, C.E.as_int(s, r), 32):
        for u, o in cases(t, [[("eq", v)], [("ge", -v - 1)], [("ge", v - 1)]]):
            if o == 0:
                post(C, u, not bad, "%s returns 0 only on success" % fn)
            else:
                post(C, u, o == 1 and bad, "%s returns a negative value exactly when the system refuses" % fn)
            out.append((u, o))
    return out


def new(C):
    st = State()
    return st, C.new_struct(st, S, "m")


def init(C, prot, zero):
    E = C.E
    C.require("sc_mmap_init", "sc_mmap_term", "sc_mmap_msync", "sc_mmap_mlock", "sc_mmap_munlock", "sc_mmap_err")
    page = E.opts.get("page", 4096)
    st, m = new(C)
    name = C.cstring(st, "name")[0]
    ff, mf = fresh("file_flags", 0, 2 ** 31 - 1), fresh("map_flags", 0, 2 ** 31 - 1)
    off = fresh("offset", 0, 2 ** 62)
    ln = ZERO if zero else fresh("len", 1, 2 ** 63 - 1)
    outs = C.run("sc_mmap_init", [(st, [m, name, ff, K(prot), mf, off, ln])])
    if not C.lost:
        done = any(o == 0 for s, r in outs for t, o in ret(C, s.fork(), r, "init"))
        post(C, State(), done, "init succeeds when the system does")
    for s, r in outs:
        for t, o in ret(C, s, r, "init"):
            fd, p, n = C.E.norm_s(t, E.as_int(t, C.get(t, m, S, "fd")), 32)[0][1], C.getp(t, m, S, "ptr"), C.get(t, m, S, "len")
            opened = [e for e in events(t, "open") if e[1]]
            fa = events(t, "fallocate")
            post(C, t, not fa or not t.eq(fa[-1][1], 4), "an interrupted allocation is retried")
            if o:
                C.check(t, "leak", not sysm.fds(t) and not sysm.maps(t), "a failed init holds neither descriptor nor mapping")
                C.check(t, "fd", t.eq(fd, -1), "a failed init leaves no descriptor behind")
                errtext(C, t, m, "init")
                k = len(t.g.get("log", ()))
                for u, r2 in C.run("sc_mmap_term", [(t, [m])]):
                    post(C, u, u.eq(r2) and len(u.g.get("log", ())) == k, "terminating after a failed init does nothing")
                continue
            C.check(t, "range", t.eq(C.get(t, m, S, "page_size"), page), "the page size kept is the system's")
            C.check(t, "err", not events(t, "strerror"), "a call that succeeds leaves the error text alone")
            mm = events(t, "mmap")
            C.check(t, "leak", len(sysm.fds(t)) <= 1 and len(sysm.maps(t)) == 1, "a successful init holds one descriptor and one mapping")
            if len(mm) != 1 or not opened:
                post(C, t, False, "a successful init opens and maps the file")
                continue
            _, h, mn, mp, mfl, mfd, mo, rid = mm[0]
            C.check(t, "fd", t.eq(fd - opened[0][5]) and t.rp(p).b == rid and t.eq(t.rp(p).off), "the object refers to the file and mapping made")
            post(C, t, t.rp(opened[0][2]) == t.rp(name) and t.eq(opened[0][3] - ff), "the caller's file is opened with the caller's flags")
            md = t.const(opened[0][4]) if opened[0][4] is not None else None
            post(C, t, md is not None and md & 0o600 == 0o600 and not md & 0o22, "a created file is usable by its owner and not writable by others", repr(md))
            post(C, t, t.eq(mp, prot) and t.eq(mfl - mf) and t.eq(mfd - opened[0][5]) and t.eq(mo - off), "the mapping has the caller's protection, flags and offset")
            want = ln
            if zero:
                q = events(t, "stat")
                want = q[-1][3] - off if q else None
            post(C, t, want is not None and t.eq(mn - want), "the mapping has the length asked for, or reaches the end of the file")
            C.check(t, "fd", t.eq(n - mn), "the length recorded is the length mapped")
            if prot & 2:
                good = [e for e in fa if t.eq(e[1])]
                post(C, t, bool(good) and t.eq(good[-1][2] - opened[0][5]) and t.eq(good[-1][3] - off) and t.eq(good[-1][4] - mn),
                     "the file is grown to hold the whole mapping before it is written")
            else:
                post(C, t, not fa and not events(t, "ftruncate"), "a file mapped for reading is not grown")
            # then terminate, twice
            t.g.pop("err1", None)
            t.g["sysfail"] = ()
            t.g["log"] = ()
            for u, r2 in C.run("sc_mmap_term", [(t.fork(), [m])]):
                C.check(u, "leak", not sysm.fds(u) and not sysm.maps(u), "term closes the descriptor and removes the mapping")
                C.check(u, "fd", len(events(u, "close")) == 1 and len(events(u, "munmap")) == 1, "term closes and unmaps once")
                for v, o2 in ret(C, u, r2, "term"):
                    if o2:
                        errtext(C, v, m, "term")
                    else:
                        C.check(v, "err", not events(v, "strerror"), "a call that succeeds leaves the error text alone")
                    k = len(v.g["log"])
                    for w, r3 in C.run("sc_mmap_term", [(v, [m])]):
                        post(C, w, w.eq(r3) and len(w.g["log"]) == k, "terminating again does nothing")


def ranges(C):
    E = C.E
    page = E.opts.get("page", 4096)
    eo, en = C.foff(S, "err")
    for fn, call in (("sc_mmap_msync", "msync"), ("sc_mmap_mlock", "mlock"), ("sc_mmap_munlock", "munlock")):
        st, m = new(C)
        n = fresh("maplen", 1, 2 ** 47)
        rid = E.new_region(st, "ext", "mapping", n, "sym")
        st.g[("map", rid)] = ("live", n)
        fd = sysm.fd_new(E, st, "fd")
        C.put(st, m, S, "ptr", Ptr(rid))
        C.put(st, m, S, "len", n)
        C.put(st, m, S, "fd", fd)
        C.put(st, m, S, "page_size", K(page))
        E.write(st, m.b, K(eo + en - 1), ONE, ZERO)
        off, ln = fresh("offset", 0, 2 ** 47), fresh("len", 0, 2 ** 47)
        st.cs.add_ge(n - off - ln)
        for s, r in C.run(fn, [(st, [m, off, ln])]):
            c = events(s, call)
            post(C, s, len(c) == 1 and len(s.g["log"]) - len(events(s, "strerror")) == 1, "%s makes the one call it is named after" % call)
            for t, o in ret(C, s, r, call):
                if o:
                    errtext(C, t, m, call)
                else:
                    C.check(t, "err", not events(t, "strerror"), "a call that succeeds leaves the error text alone")
            if len(c) != 1:
                continue
            p, k = c[0][2], c[0][3]
            C.check(s, "range", p.b == rid, "%s works on the object's mapping" % call)
            C.check(s, "range", s.ge(p.off) and s.ge(off - p.off), "%s starts at or before the range, inside the mapping" % call, "at %s" % s.cs.norm(p.off))
            C.check(s, "range", s.ge(p.off + k - off - ln), "%s reaches the end of the range" % call, "%s bytes from %s" % (s.cs.norm(k), s.cs.norm(p.off)))
            C.check(s, "range", s.ge(p.off - off + page - 1), "%s takes no pages before the range" % call)
            if call == "msync":
                q = E.fdiv(s, s.cs.norm(p.off), page)
                C.check(s, "range", s.eq(q.scale(page) - p.off), "msync starts on a page boundary")
                C.check(s, "range", s.ge(off + ln - p.off - k + page - 1), "msync takes no pages after the range")
                post(C, s, s.const(c[0][4]) is not None and s.const(c[0][4]) & 4 == 4, "msync waits for the data to be written")
            else:
                C.check(s, "range", s.ge(n - p.off - k) or s.ge(off + ln + page - 1 - p.off - k), "%s takes no pages after the range" % call)
            for x in ("ptr", "len", "fd"):
                w = dict(ptr=Ptr(rid), len=n, fd=fd)[x]
                v = C.getp(s, m, S, x) if x == "ptr" else C.get(s, m, S, x)
                C.check(s, "range", s.rp(v) == s.rp(w) if x == "ptr" else s.eq(v - w), "%s leaves the object as it was" % call)
    st, m = new(C)
    for s, r in C.run("sc_mmap_err", [(st, [m])]):
        C.check(s, "err", s.rp(r).b == m.b and s.eq(s.rp(r).off - eo), "the error text is the object's own")
