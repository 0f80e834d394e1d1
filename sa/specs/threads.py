"""Mutex, condition, thread and clock wrappers."""
from ..spec import *
from .. import sysm
from ..sysm import events, objat, MTX, CND

MODELS = sysm.S


def post(C, s, cond, msg, detail=None):
    return C.check(s, "post", cond, msg, detail)


def neg(s, r):
    return [("ge", -r - 1)]


# ---------------------------------------------------------------- mutex
def mutex(C):
    C.require("sc_mutex_init", "sc_mutex_term", "sc_mutex_lock", "sc_mutex_unlock")
    S = "sc_mutex"
    off, _ = C.foff(S, "mtx")
    sysm.watch(C.E)

    def new(state):
        st = State()
        m = C.new_struct(st, S, "m")
        k = objat(C, st, m, off, MTX)
        st.g[k] = state
        return st, m, k
    st, m, k = new(None)
    for s, r in C.run("sc_mutex_init", [(st, [m])]):
        for t, o in cases(s, [[("eq", r)], neg(s, r), [("ge", r - 1)]]):
            if o == 0:
                post(C, t, t.g.get(k) == "free", "a successful init leaves the mutex usable and unlocked")
                post(C, t, t.g.get(("mtype", k), 0) in (0, 2, 3), "the mutex excludes a second locker", str(t.g.get(("mtype", k))))
                rest = [x for x, v in sysm.live(t) if x != k]
            else:
                post(C, t, t.eq(r + 1), "a failed init returns -1")
                post(C, t, bool(t.g.get("sysfail")), "init only fails when the system refuses")
                rest = [x for x, v in sysm.live(t)]
            C.check(t, "leak", not rest, "init releases its attributes and, when it fails, the mutex")
    for fn, a, b, w in (("sc_mutex_lock", "free", "held", "lock"), ("sc_mutex_unlock", "held", "free", "unlock")):
        st, m, k = new(a)
        outs = C.run(fn, [(st, [m])])
        post(C, st, bool(outs), "%s returns" % w)
        for s, r in outs:
            post(C, s, s.g.get(k) == b, "%s leaves the caller's mutex %s" % (w, b))
            C.check(s, "lock", [e[1] for e in events(s, "lock", "unlock")] == [k], "%s touches exactly the caller's mutex, once" % w)
    st, m, k = new("free")
    for s, r in C.run("sc_mutex_term", [(st, [m])]):
        d = events(s, "mutex_destroy")
        C.check(s, "lock", len(d) == 1 and d[0][1] == k, "term destroys exactly the caller's mutex")
        if d and d[0][2]:
            post(C, s, s.eq(r), "term returns 0 when the mutex was destroyed")
        else:
            post(C, s, s.eq(r, -1), "term returns -1 when it was not")


# ---------------------------------------------------------------- condition
def cond(C):
    C.require("sc_cond_init", "sc_cond_term", "sc_cond_signal", "sc_cond_wait")
    S = "sc_cond"
    E = C.E
    mo, co = C.foff(S, "mtx")[0], C.foff(S, "cond")[0]
    io, do, dd = C.foff(S, "init"), C.foff(S, "done"), C.foff(S, "data")
    sysm.watch(E)

    def new(state, init):
        st = State()
        c = C.new_struct(st, S, "c")
        km, kc = objat(C, st, c, mo, MTX), objat(C, st, c, co, CND)
        st.g[km] = st.g[kc] = state
        C.put(st, c, S, "init", K(init))
        return st, c, km, kc

    # init
    st = State()
    c = C.new_struct(st, S, "c")
    km, kc = objat(C, st, c, mo, MTX), objat(C, st, c, co, CND)
    for s, r in C.run("sc_cond_init", [(st, [c])]):
        left = [x for x, v in sysm.live(s) if x not in (km, kc)]
        for t, o in cases(s, [[("eq", r)], neg(s, r), [("ge", r - 1)]]):
            if o == 0:
                post(C, t, t.g.get(km) == "free" and t.g.get(kc) == "free", "a successful init leaves mutex and condition usable")
                post(C, t, t.eq(C.get(t, c, S, "done")), "a new condition has no pending signal")
                post(C, t, t.ge(C.get(t, c, S, "init"), 1), "a successful init marks the object as initialised")
                C.check(t, "leak", not left, "init releases its attributes")
            else:
                post(C, t, o == 1, "a failed init returns a negative value")
                post(C, t, bool(t.g.get("sysfail")), "init only fails when the system refuses")
                post(C, t, t.ge(sysm.get_errno(E, t), 1), "a failed init sets errno")
                post(C, t, t.eq(C.get(t, c, S, "init")), "a failed init leaves the object unmarked, so that term is harmless")
                C.check(t, "leak", not left and not sysm.live(t), "a failed init releases everything it created")
    # term
    for init in (1, 0):
        st, c, km, kc = new("free" if init else None, init)
        for s, r in C.run("sc_cond_term", [(st, [c])]):
            post(C, s, s.eq(C.get(s, c, S, "init")), "term leaves the object unmarked")
            dm, dc = events(s, "mutex_destroy"), events(s, "cond_destroy")
            if not init:
                post(C, s, s.eq(r) and not dm and not dc, "term of an uninitialised object does nothing")
                continue
            C.check(s, "leak", [e[1] for e in dm] == [km] and [e[1] for e in dc] == [kc],
                    "term destroys mutex and condition, each once")
            bad = bool(s.g.get("sysfail"))
            for t, o in cases(s, [[("eq", r)], neg(s, r), [("ge", r - 1)]]):
                if o == 0:
                    post(C, t, not bad, "term returns 0 only when everything was destroyed")
                else:
                    post(C, t, o == 1, "a failing term returns a negative value")
                    post(C, t, bad, "term only fails when the system refuses")
                    post(C, t, t.ge(sysm.get_errno(E, t), 1), "a failing term sets errno")

    # protocol: data and done belong to the mutex
    def interfere(E, st, k, inst, why):
        rid, km, c, maydone = st.g["obj"]
        if k != km:
            return
        x = fresh("done'", 0, 1)
        y = Ptr(("p", lin.new_sym("data'")))
        E.write(st, rid, c.off + do[0], K(do[1]), x)
        E.write(st, rid, c.off + dd[0], K(dd[1]), y)
        st.g["epoch"] = (x, y)
        st.g["nepoch"] = st.g.get("nepoch", 0) + 1

    def atunlock(E, st, k, inst):
        rid, km, c, maydone = st.g["obj"]
        if k != km:
            return
        x = E.read(st, rid, st.cs.norm(c.off + do[0]), do[1], I(8 * do[1]))
        y = E.read(st, rid, st.cs.norm(c.off + dd[0]), dd[1], PTR)
        st.g["crit"] = st.g.get("crit", ()) + ((st.g.get("epoch"), x, st.rp(y), len(st.g.get("log", ()))),)
    E.hooks["interfere"] = interfere
    E.hooks["unlock"] = atunlock

    def shared():
        st, c, km, kc = new("free", 1)
        st.g["obj"] = (c.b, km, c, True)
        st.g[("guard", c.b)] = (km, ((K(do[0]), K(do[0] + do[1])), (K(dd[0]), K(dd[0] + dd[1]))))
        return st, c, km, kc

    # signal
    st, c, km, kc = shared()
    arg = Ptr(("p", lin.new_sym("arg")))
    for s, r in C.run("sc_cond_signal", [(st, [c, arg])]):
        C.check(s, "lock", s.g.get(km) == "free", "signal returns with the mutex released")
        crit = s.g.get("crit", ())
        good = [x for x in crit if x[2] == s.rp(arg) and s.ge(x[1], 1)]
        C.check(s, "proto", len(good) == 1 and len(crit) == 1,
                "signal stores its data and raises the flag inside one critical section")
        if good:
            (ex, ey), x, y, pos = good[0]
            lg = list(s.g.get("log", ()))
            first = [i for i, e in enumerate(lg) if e[0] == "lock"][0]
            wake = [i for i, e in enumerate(lg) if e[0] == "wake" and e[1] == kc and i > first]
            C.check(s, "proto", bool(wake) or s.ge(ex, 1), "signal wakes a waiter after taking the lock")
    # wait
    st, c, km, kc = shared()
    for s, r in C.run("sc_cond_wait", [(st, [c])]):
        C.check(s, "lock", s.g.get(km) == "free", "wait returns with the mutex released")
        crit = s.g.get("crit", ())
        if not crit:
            C.check(s, "proto", False, "wait consumes the signal inside a critical section")
            continue
        (ex, ey), x, y, pos = crit[-1]
        C.check(s, "proto", s.ge(ex, 1), "wait returns only when the flag was seen raised after the last wake-up")
        C.check(s, "proto", s.eq(x), "wait lowers the flag before releasing the mutex")
        C.check(s, "proto", s.rp(r) == s.rp(ey), "wait returns the data stored with that signal")
        # earlier critical sections (before a wait) must not lose a signal
        for (ex, ey), x, y, pos in crit[:-1]:
            C.check(s, "proto", s.eq(ex) or not s.eq(x) and s.ge(x, 1), "waiting does not discard a pending signal")
        for (ex, ey), x, y, pos in crit[:-1]:
            C.check(s, "proto", s.eq(ex), "wait does not block while a signal is pending")
        waits = events(s, "wait")
        C.check(s, "proto", len(waits) >= len(crit) - 1, "wait blocks between two looks at the flag")
        C.check(s, "proto", all(e[1] == kc and e[2] == km for e in waits), "wait blocks on the object's own condition and mutex")


# ---------------------------------------------------------------- thread
def thread(C):
    C.require("sc_thread_init", "sc_thread_term", "sc_thread_start", "sc_thread_join", "sc_thread_err")
    S = "sc_thread"
    E = C.E
    eo, en = C.foff(S, "err")

    def errtext(s, t, what, must):
        """the message is terminated inside its array and tells the failing code"""
        q = Ptr(t.b, t.off + eo)
        P = sysm.need_cstr(E, s, q, None)
        if P is not None:
            C.check(s, "err", s.ge(P[1] - q.off) and s.ge(q.off + en - 1 - P[1]), "the message is terminated inside its array")
        if must is not None:
            c = events(s, "strerror")
            C.check(s, "err", bool(c) and s.eq(c[-1][1] - must), "%s: the message describes the error that occurred" % what)
            for u, r in C.aside("sc_thread_err", [(s.fork(), [t])]):
                z = u.rp(r)
                C.check(u, "err", z.b == t.b and u.eq(z.off - q.off) and u.const(E.as_int(u, C.byte(u, z, K(0)))) != 0,
                        "%s: a failure has an error text" % what)

    def fresh_t():
        st = State()
        t = C.new_struct(st, S, "t")
        return st, t
    st, t = fresh_t()
    inits = C.run("sc_thread_init", [(st, [t])])
    fnp, arg = Ptr(("p", lin.new_sym("fn"))), Ptr(("p", lin.new_sym("arg")))
    errs = []
    for s, r in inits:
        for s2, r2 in C.run("sc_thread_err", [(s.fork(), [t])]):
            q = s2.rp(r2)
            C.check(s2, "err", q.b == t.b and s2.eq(q.off - eo), "the error text is the object's own")
            c = s2.const(C.byte(s2, t, K(eo)))
            C.check(s2, "err", c == 0, "before any failure the error text is empty")
        # join without a thread
        for fn in ("sc_thread_join", "sc_thread_term"):
            v = C.block(s, "ret", K(8))
            for args in ([t, v], [t, NULL]) if fn.endswith("join") else ([t],):
                for s2, r2 in C.run(fn, [(s.fork(), args)]):
                    post(C, s2, s2.eq(r2) and not events(s2, "join"), "joining a thread that was never started does nothing")
                    if len(args) == 2 and args[1] is v:
                        post(C, s2, s2.isnull(E.read(s2, v.b, ZERO, 8, PTR)), "and yields a NULL result")
        for s2, r2 in C.run("sc_thread_start", [(s.fork(), [t, fnp, arg])]):
            cr = events(s2, "create")
            ok = bool(cr) and cr[-1][1]
            C.check(s2, "leak", not sysm.live(s2), "start releases its attributes")
            post(C, s2, len(cr) <= 1, "start creates at most one thread")
            for u, o in cases(s2, [[("eq", r2)], [("eq", r2 + 1)], [("ge", -r2 - 2)], [("ge", r2 - 1)]]):
                if o == 0:
                    post(C, u, ok, "start reports success only when the thread runs")
                    C.check(u, "err", not events(u, "strerror"), "a call that succeeds leaves the error text alone")
                else:
                    post(C, u, o == 1, "a failed start returns -1")
                    post(C, u, not ok, "start reports failure only when no thread runs")
                    fa = [e for e in cr if not e[1]]
                    errtext(u, t, "start", fa[-1][6] if fa else u.g.get("rc.attr_init"))
            if ok:
                post(C, s2, s2.rp(cr[-1][3]) == s2.rp(fnp) and s2.rp(cr[-1][4]) == s2.rp(arg),
                     "the thread runs the caller's function with the caller's argument")
                post(C, s2, cr[-1][5] == 0, "the thread is joinable")
            # then join, and join again
            for fn in ("sc_thread_join", "sc_thread_term"):
                v = C.block(s2, "ret", K(8))
                for args in ([t, v], [t, NULL]) if fn.endswith("join") else ([t],):
                    for s3, r3 in C.run(fn, [(s2.fork(), args)]):
                        j = events(s3, "join")
                        if not ok:
                            C.check(s3, "thread", not j, "a thread that did not start is not joined")
                            continue
                        C.check(s3, "thread", len(j) == 1 and s3.eq(j[0][2] - cr[-1][2]), "join waits for the started thread")
                        if len(j) != 1:
                            continue
                        for u, o in cases(s3, [[("eq", r3)], [("eq", r3 + 1)], [("ge", -r3 - 2)], [("ge", r3 - 1)]]):
                            if o == 0:
                                post(C, u, j[0][1], "join reports success only when the thread was joined")
                                C.check(u, "err", not events(u, "strerror"), "a call that succeeds leaves the error text alone")
                                if len(args) == 2 and args[1] is v:
                                    post(C, u, u.rp(E.read(u, v.b, ZERO, 8, PTR)) == u.rp(j[0][3]), "join yields the thread's result")
                            else:
                                post(C, u, o == 1, "a failed join returns -1")
                                post(C, u, not j[0][1], "join reports failure only when the system refuses")
                                errtext(u, t, "join", j[0][4])
                        for s4, r4 in C.run("sc_thread_term", [(s3.fork(), [t])]):
                            C.check(s4, "thread", len(events(s4, "join")) == 1, "a joined thread is not joined again")
                            post(C, s4, s4.eq(r4), "joining again does nothing")


# ---------------------------------------------------------------- clocks
def time(C):
    fns = {"sc_time_ms": (0, 1000, 1000000), "sc_time_ns": (0, 10 ** 9, 1),
           "sc_time_mono_ms": (1, 1000, 1000000), "sc_time_mono_ns": (1, 10 ** 9, 1)}
    C.require("sc_time_sleep", *fns)
    for fn, (clk, mul, div) in fns.items():
        for s, r in C.run(fn, [(State(), [])]):
            g = events(s, "clock_gettime")
            post(C, s, len(g) == 1, "%s reads the clock once" % fn)
            if len(g) != 1:
                continue
            post(C, s, s.eq(g[0][1], clk), "%s reads the %s clock" % (fn, "monotonic" if clk else "wall"))
            want = g[0][2].scale(mul) + C.E.fdiv(s, g[0][3], div)
            for t, v in C.E.norm_u(s, C.E.as_int(s, r), 64):
                post(C, t, t.eq(v, want), "%s converts seconds and nanoseconds without loss or overflow" % fn,
                     "%s instead of %s" % (t.cs.norm(v), t.cs.norm(want)))
    ms = fresh("millis", 0, 2 ** 63 - 1)
    st = State()
    for s, r in C.run("sc_time_sleep", [(st, [ms])]):
        n = events(s, "nanosleep")
        post(C, s, bool(n), "sleep sleeps")
        if not n:
            continue
        post(C, s, s.ge(n[0][1]) and s.ge(n[0][2]) and s.ge(-n[0][2] + 999999999) and
             s.eq(n[0][1].scale(1000) - ms + C.E.fdiv(s, n[0][2], 1000000)) and
             s.eq(n[0][2] - C.E.fdiv(s, n[0][2], 1000000).scale(1000000)), "sleep asks for exactly the requested time",
             "%s s %s ns" % (s.cs.norm(n[0][1]), s.cs.norm(n[0][2])))
        for a, b in zip(n, n[1:]):
            post(C, s, a[3] == "intr", "sleep only sleeps again after an interruption")
            post(C, s, a[4] is not None and s.eq(a[4] - b[1]) and s.eq(a[5] - b[2]), "an interrupted sleep resumes with the time remaining")
        for t, o in cases(s, [[("eq", r)], neg(s, r), [("ge", r - 1)]]):
            if o == 0:
                post(C, t, n[-1][3] == "done", "sleep returns 0 only after the whole time")
            else:
                post(C, t, o == 1 and n[-1][3] == "error", "sleep returns a negative value only when the system refuses")
