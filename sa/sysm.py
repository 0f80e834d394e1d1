"""Models of pthread and system calls with typestate.

Every call is appended to the event log st.g["log"] as (name, args, result).
Objects (mutex, condition, attributes) carry a typestate keyed by the region
and offset they live at; descriptors are tracked by value.
"""
from . import lin
from .lin import Lin, K, V, ZERO, ONE, fresh, memo_sym
from .eng import Ptr, NULL, NULLB, Havoc, Region
from .models import mem_range, set_errno, get_errno, need_cstr, errno_rid
from .ir import I, PTR

S = {}
IMAX = 2 ** 31 - 1


def sysm(*names):
    def deco(f):
        for n in names:
            S[n] = f
        return f
    return deco


def nm(inst):
    c = inst.x["callee"]
    return c[1] if c[0] == "glob" else "?"


def log(st, name, *args):
    st.g["log"] = st.g.get("log", ()) + ((name,) + args,)


def events(st, *names):
    return [e for e in st.g.get("log", ()) if not names or e[0] in names]


def fails(st, what):
    st.note("%s fails" % what)
    st.g["sysfail"] = st.g.get("sysfail", ()) + (what,)


# ---------------------------------------------------------------- typestate
def key(E, st, p, size, inst, what):
    """typestate key of the object at p (its bytes are checked)"""
    q = E.deref(st, p, inst, what)
    if q is None:
        return None
    st.g["in_model"] = True
    ok = E.check_access(st, q, K(size), inst, "write")
    st.g["in_model"] = False
    return ("ts", q.b, st.cs.norm(q.off), size) if ok else None


def objat(C, st, p, off, size):
    p = st.rp(p)
    return ("ts", p.b, st.cs.norm(p.off + off), size)


def need(E, st, k, want, inst, what, kind="lock"):
    have = st.g.get(k)
    E.ob(st, kind, have in want, what, inst, detail="state %s" % have)
    return have


def live(st, names=None):
    """typestate objects that still hold resources"""
    return [(k, v) for k, v in st.g.items() if isinstance(k, tuple) and k[0] == "ts" and v not in ("dead", None)]


def alts(st, what, rc_lo=1, rc_hi=133, ok=0):
    """-> [(state, rc Lin, succeeded)]"""
    f = st.fork()
    fails(f, what)
    return [(st, K(ok), True), (f, fresh("rc." + what, rc_lo, rc_hi), False)]


ATTR, MTX, CND, TATTR = 4, 40, 48, 56


@sysm("pthread_mutexattr_init")
def p_attr_init(E, st, a, inst):
    out = []
    for s, rc, ok in alts(st, "mutexattr_init"):
        k = key(E, s, a[0], ATTR, inst, "attribute")
        if k is None:
            continue
        if ok:
            s.g[k] = "live"
        out.append((s, rc))
    return out


@sysm("pthread_mutexattr_settype", "pthread_mutexattr_setpshared", "pthread_mutexattr_setprotocol", "pthread_mutexattr_setrobust")
def p_attr_set(E, st, a, inst):
    k = key(E, st, a[0], ATTR, inst, "attribute")
    if k is None:
        return []
    need(E, st, k, ("live",), inst, "attributes are initialised before use")
    log(st, nm(inst), k, st.norm(a[1]))
    if nm(inst) == "pthread_mutexattr_settype":
        t = st.const(E.as_int(st, a[1]))
        if t is not None and not 0 <= t <= 3:
            fails(st, "settype")
            return [(st, K(22))]
        st.g[("mtype", k)] = t
    return [(st, ZERO)]


@sysm("pthread_mutexattr_destroy")
def p_attr_destroy(E, st, a, inst):
    k = key(E, st, a[0], ATTR, inst, "attribute")
    if k is None:
        return []
    need(E, st, k, ("live",), inst, "attributes are destroyed exactly once, after initialisation")
    st.g[k] = "dead"
    return [(st, ZERO)]


@sysm("pthread_mutex_init")
def p_mutex_init(E, st, a, inst):
    out = []
    for s, rc, ok in alts(st, "mutex_init"):
        k = key(E, s, a[0], MTX, inst, "mutex")
        if k is None:
            continue
        need(E, s, k, (None, "dead"), inst, "a live mutex is not initialised again")
        p = s.rp(a[1]) if isinstance(a[1], Ptr) else E.i2p(s, a[1])
        t = 0
        if p.b != NULLB:
            ka = key(E, s, p, ATTR, inst, "attribute")
            if ka is None:
                continue
            need(E, s, ka, ("live",), inst, "attributes are initialised before use")
            t = s.g.get(("mtype", ka), 0)
        log(s, "mutex_init", k, ok)
        if ok:
            s.g[k] = "free"
            s.g[("mtype", k)] = t
        out.append((s, rc))
    return out


@sysm("pthread_mutex_destroy")
def p_mutex_destroy(E, st, a, inst):
    out = []
    for s, rc, ok in alts(st, "mutex_destroy"):
        k = key(E, s, a[0], MTX, inst, "mutex")
        if k is None:
            continue
        need(E, s, k, ("free",), inst, "only a live, unlocked mutex is destroyed")
        log(s, "mutex_destroy", k, ok)
        s.g[k] = "dead"
        out.append((s, rc))
    return out


def held(st):
    return [k for k, v in st.g.items() if isinstance(k, tuple) and k[0] == "ts" and v == "held"]


def interference(E, st, k, inst, why):
    h = E.hooks.get("interfere")
    if h is not None:
        h(E, st, k, inst, why)


@sysm("pthread_mutex_lock")
def p_lock(E, st, a, inst):
    k = key(E, st, a[0], MTX, inst, "mutex")
    if k is None:
        return []
    need(E, st, k, ("free",), inst, "lock acquires a live mutex this thread does not hold")
    st.g[k] = "held"
    log(st, "lock", k)
    interference(E, st, k, inst, "lock")
    return [(st, ZERO)]


@sysm("pthread_mutex_unlock")
def p_unlock(E, st, a, inst):
    k = key(E, st, a[0], MTX, inst, "mutex")
    if k is None:
        return []
    need(E, st, k, ("held",), inst, "unlock releases a mutex this thread holds")
    h = E.hooks.get("unlock")
    if h is not None:
        h(E, st, k, inst)
    st.g[k] = "free"
    log(st, "unlock", k)
    return [(st, ZERO)]


@sysm("pthread_mutex_trylock")
def p_trylock(E, st, a, inst):
    k = key(E, st, a[0], MTX, inst, "mutex")
    if k is None:
        return []
    f = st.fork()
    fails(f, "trylock")
    need(E, st, k, ("free",), inst, "lock acquires a live mutex this thread does not hold")
    st.g[k] = "held"
    log(st, "lock", k)
    interference(E, st, k, inst, "lock")
    return [(st, ZERO), (f, K(16))]


@sysm("pthread_cond_init")
def p_cond_init(E, st, a, inst):
    out = []
    for s, rc, ok in alts(st, "cond_init"):
        k = key(E, s, a[0], CND, inst, "condition")
        if k is None:
            continue
        need(E, s, k, (None, "dead"), inst, "a live condition is not initialised again")
        log(s, "cond_init", k, ok)
        if ok:
            s.g[k] = "free"
        out.append((s, rc))
    return out


@sysm("pthread_cond_destroy")
def p_cond_destroy(E, st, a, inst):
    out = []
    for s, rc, ok in alts(st, "cond_destroy"):
        k = key(E, s, a[0], CND, inst, "condition")
        if k is None:
            continue
        need(E, s, k, ("free",), inst, "only a live condition is destroyed")
        log(s, "cond_destroy", k, ok)
        s.g[k] = "dead"
        out.append((s, rc))
    return out


@sysm("pthread_cond_signal", "pthread_cond_broadcast")
def p_cond_signal(E, st, a, inst):
    k = key(E, st, a[0], CND, inst, "condition")
    if k is None:
        return []
    need(E, st, k, ("free",), inst, "only a live condition is signalled")
    log(st, "wake", k, tuple(held(st)))
    return [(st, ZERO)]


@sysm("pthread_cond_wait", "pthread_cond_timedwait")
def p_cond_wait(E, st, a, inst):
    k = key(E, st, a[0], CND, inst, "condition")
    m = key(E, st, a[1], MTX, inst, "mutex")
    if k is None or m is None:
        return []
    need(E, st, k, ("free",), inst, "only a live condition is waited for")
    need(E, st, m, ("held",), inst, "waiting requires the mutex to be held")
    h = E.hooks.get("unlock")
    if h is not None:
        h(E, st, m, inst)
    log(st, "wait", k, m)
    st.note("woken, possibly spuriously")
    interference(E, st, m, inst, "wait")
    return [(st, ZERO)]


def watch(E):
    """access hook: a live mutex or condition is not overwritten by plain stores,
    and guarded fields are touched only with their mutex held"""
    def hook(E, st, p, size, inst, what):
        if st.g.get("in_model"):
            return
        g = st.g.get(("guard", p.b))
        if g is not None:
            m, ranges = g
            for lo, hi in ranges:
                if st.cs.entails_ge(p.off - hi) or st.cs.entails_ge(lo - p.off - size):
                    continue
                E.ob(st, "guard", st.g.get(m) == "held", "%s of shared state happens with its mutex held" % what, inst)
        if what == "write":
            for k, v in list(st.g.items()):
                if isinstance(k, tuple) and k[0] == "ts" and k[1] == p.b and v not in ("dead", None):
                    if st.cs.entails_ge(p.off - k[2] - k[3]) or st.cs.entails_ge(k[2] - p.off - size):
                        continue
                    E.ob(st, "lock", False, "a live synchronisation object is not overwritten", inst)
    E.access_hook = hook


# ---------------------------------------------------------------- threads
@sysm("pthread_attr_init")
def t_attr_init(E, st, a, inst):
    out = []
    for s, rc, ok in alts(st, "attr_init"):
        if not ok:
            s.g["rc.attr_init"] = rc
        k = key(E, s, a[0], TATTR, inst, "attribute")
        if k is None:
            continue
        if ok:
            s.g[k] = "live"
        out.append((s, rc))
    return out


@sysm("pthread_attr_setdetachstate", "pthread_attr_setstacksize", "pthread_attr_setguardsize")
def t_attr_set(E, st, a, inst):
    k = key(E, st, a[0], TATTR, inst, "attribute")
    if k is None:
        return []
    need(E, st, k, ("live",), inst, "attributes are initialised before use")
    v = st.const(E.as_int(st, a[1]))
    if nm(inst).endswith("detachstate"):
        st.g[("detach", k)] = v
    log(st, nm(inst), k, st.norm(a[1]))
    return [(st, ZERO)]


@sysm("pthread_attr_destroy")
def t_attr_destroy(E, st, a, inst):
    k = key(E, st, a[0], TATTR, inst, "attribute")
    if k is None:
        return []
    need(E, st, k, ("live",), inst, "attributes are destroyed exactly once, after initialisation")
    st.g[k] = "dead"
    return [(st, ZERO)]


@sysm("pthread_create")
def t_create(E, st, a, inst):
    out = []
    for s, rc, ok in alts(st, "create"):
        q = mem_range(E, s, a[0], K(8), inst, "write")
        if q is None:
            continue
        p = s.rp(a[1]) if isinstance(a[1], Ptr) else E.i2p(s, a[1])
        det = 0
        if p.b != NULLB:
            k = key(E, s, p, TATTR, inst, "attribute")
            if k is None:
                continue
            need(E, s, k, ("live",), inst, "attributes are initialised before use")
            det = s.g.get(("detach", k), 0)
        tid = fresh("tid", 1, 2 ** 64 - 1)
        # the identifier is unspecified after a failure
        E.write(s, q.b, q.off, K(8), tid)
        log(s, "create", ok, tid, s.norm(a[2]), s.norm(a[3]), det, rc)
        if ok:
            s.g[("thr", tid)] = "running"
        out.append((s, rc))
    return out


@sysm("pthread_join")
def t_join(E, st, a, inst):
    tid = st.cs.norm(E.as_int(st, a[0]))
    k = None
    for x in st.g:
        if isinstance(x, tuple) and x[0] == "thr" and st.cs.entails_eq(x[1] - tid):
            k = x
    E.ob(st, "thread", k is not None and st.g[k] == "running", "join is called once, on a thread that was started", inst,
         detail="%s" % tid)
    out = []
    for s, rc, ok in alts(st, "join"):
        if k is not None:
            s.g[k] = "joined"
        p = s.rp(a[1]) if isinstance(a[1], Ptr) else E.i2p(s, a[1])
        v = Ptr(("p", lin.new_sym("thread result")))
        if ok and p.b != NULLB:
            q = mem_range(E, s, p, K(8), inst, "write")
            if q is None:
                continue
            E.write(s, q.b, q.off, K(8), v)
        log(s, "join", ok, tid, v, rc)
        out.append((s, rc))
    return out


@sysm("pthread_detach")
def t_detach(E, st, a, inst):
    tid = st.cs.norm(E.as_int(st, a[0]))
    for x in list(st.g):
        if isinstance(x, tuple) and x[0] == "thr" and st.cs.entails_eq(x[1] - tid):
            st.g[x] = "detached"
    return [(st, ZERO)]


@sysm("pthread_self")
def t_self(E, st, a, inst):
    return [(st, V(memo_sym("pthread_self", "self", 1, 2 ** 64 - 1)))]


@sysm("strerror", "gai_strerror")
def m_strerror(E, st, a, inst):
    L = fresh("len(strerror)", 0, 2 ** 20)
    rid = E.new_region(st, "ext", "strerror", L + 1, "sym")
    st.set_attr(rid, "cstr", (ZERO, L))
    st.set_attr(rid, "errcode", st.cs.norm(E.as_int(st, a[0])))
    log(st, nm(inst), st.cs.norm(E.as_int(st, a[0])))
    return [(st, Ptr(rid))]


# ---------------------------------------------------------------- clocks
@sysm("clock_gettime")
def c_gettime(E, st, a, inst):
    q = mem_range(E, st, a[1], K(16), inst, "write")
    if q is None:
        return []
    sec = fresh("tv_sec", 0, 2 ** 33)
    ns = fresh("tv_nsec", 0, 999999999)
    E.write(st, q.b, q.off, K(8), sec)
    E.write(st, q.b, q.off + 8, K(8), ns)
    log(st, "clock_gettime", st.cs.norm(E.as_int(st, a[0])), sec, ns)
    return [(st, ZERO)]


@sysm("nanosleep")
def c_nanosleep(E, st, a, inst):
    q = mem_range(E, st, a[0], K(16), inst, "read")
    if q is None:
        return []
    sec = E.read(st, q.b, q.off, 8, I(64))
    ns = E.read(st, q.b, q.off + 8, 8, I(64))
    out = []
    for s, sec1 in E.norm_s(st, sec, 64):
        for s1, ns1 in E.norm_s(s, ns, 64):
            r = s1.rp(a[1]) if isinstance(a[1], Ptr) else E.i2p(s1, a[1])
            bad = s1.fork()
            fails(bad, "nanosleep")
            e = set_errno(E, bad, 5, 133)
            log(bad, "nanosleep", sec1, ns1, "error", None, None)
            out.append((bad, K(-1)))
            if not (s1.cs.add_ge(sec1) and s1.cs.add_ge(ns1) and s1.cs.add_ge(-ns1 + 999999999)) or s1.cs.bot:
                continue
            ok = s1.fork()
            log(ok, "nanosleep", sec1, ns1, "done", None, None)
            out.append((ok, ZERO))
            s1.note("nanosleep is interrupted")
            set_errno(E, s1, 4, 4)
            rs = rn = None
            if r.b != NULLB:
                d = mem_range(E, s1, r, K(16), inst, "write")
                if d is None:
                    continue
                rs, rn = fresh("rem_sec", 0), fresh("rem_nsec", 0, 999999999)
                s1.cs.add_ge(sec1 - rs)
                E.write(s1, d.b, d.off, K(8), rs)
                E.write(s1, d.b, d.off + 8, K(8), rn)
            log(s1, "nanosleep", sec1, ns1, "intr", rs, rn)
            out.append((s1, K(-1)))
    return out


# ---------------------------------------------------------------- stdio
def new_file(E, st, name="FILE"):
    rid = E.new_region(st, "ext", name, K(216), "sym")
    st.g[("file", rid)] = "open"
    return Ptr(rid)


def files(st, state="open"):
    return [k[1] for k, v in st.g.items() if isinstance(k, tuple) and k[0] == "file" and v == state]


def stream(E, st, p, inst, what):
    """the FILE a stdio call works on; it must be open"""
    p = st.rp(p) if isinstance(p, Ptr) else E.i2p(st, p)
    s = st.g.get(("file", p.b)) if p.b in st.mem or p.b == NULLB else None
    if p.b == NULLB or ("file", p.b) in st.g:
        E.ob(st, "file", s in ("open", "std"), "%s works on an open file" % what, inst, detail="%s" % (s or "NULL"))
        if s not in ("open", "std"):
            return None
    return p


def std_streams(E, st):
    for n in ("stdout", "stderr", "stdin"):
        rid = E.new_region(st, "ext", n, K(216), "sym")
        st.g[("file", rid)] = "std"
        st.g[n] = rid
        r = Region("@" + n, "const", n, K(8), "sym")
        r.ents = ((ZERO, K(8), Ptr(rid)),)
        st.mem["@" + n] = r


@sysm("fopen")
def f_open(E, st, a, inst):
    names = []
    for i in (0, 1):
        P = need_cstr(E, st, a[i], inst)
        if P is None:
            return []
    f = st.fork()
    fails(f, "fopen")
    e = set_errno(E, f)
    log(f, "fopen", False, st.rp(a[0]), a[1], None, e)
    log_p = new_file(E, st)
    st.g[("fresh", log_p.b)] = True
    log(st, "fopen", True, st.rp(a[0]), a[1], log_p, None)
    return [(f, NULL), (st, log_p)]


@sysm("fclose")
def f_close(E, st, a, inst):
    p = stream(E, st, a[0], inst, "fclose")
    if p is None:
        return []
    st.g[("file", p.b)] = "closed"
    f = st.fork()
    fails(f, "fclose")
    set_errno(E, f)
    log(st, "fclose", True, p)
    log(f, "fclose", False, p)
    return [(st, ZERO), (f, K(-1))]


def printed(E, st, p, how, fmt, args, inst, n=None):
    f = st.fork()
    fails(f, how)
    f.g[("ferr", p.b)] = True
    e = set_errno(E, f)
    log(f, "print", False, p, how, fmt, args, fresh(how + "-", -IMAX - 1, -1) if "printf" in how else K(-1), e)
    rc = fresh(how, 0, IMAX) if n is None else n
    log(st, "print", True, p, how, fmt, args, rc, None)
    return [(st, rc), (f, events(f, "print")[-1][6])]


@sysm("fprintf", "__fprintf_chk")
def f_printf(E, st, a, inst):
    from .models import fmt_args
    p = stream(E, st, a[0], inst, "fprintf")
    if p is None:
        return []
    q = E.deref(st, a[1], inst, "format")
    if q is None:
        return []
    if isinstance(q.b, str) and q.b not in st.mem:
        E.global_region(st, q.b[1:])
    fmt_args(E, st, a[1], a[2:], inst)
    return printed(E, st, p, "fprintf", q, tuple(a[2:]), inst)


@sysm("printf")
def f_printf0(E, st, a, inst):
    if "stdout" not in st.g:
        std_streams(E, st)
    return f_printf(E, st, [Ptr(st.g["stdout"])] + list(a), inst)


@sysm("vfprintf", "__vfprintf_chk")
def f_vprintf(E, st, a, inst):
    from .models import use_va
    p = stream(E, st, a[0], inst, "vfprintf")
    if p is None:
        return []
    use_va(E, st, a[2], inst)
    q = E.deref(st, a[1], inst, "format")
    if q is None:
        return []
    return printed(E, st, p, "vfprintf", q, st.rp(a[2]), inst)


@sysm("fputs")
def f_puts(E, st, a, inst):
    p = stream(E, st, a[1], inst, "fputs")
    P = need_cstr(E, st, a[0], inst)
    if p is None or P is None:
        return []
    return printed(E, st, p, "fputs", st.rp(a[0]), (), inst)


@sysm("fputc", "putc")
def f_putc(E, st, a, inst):
    p = stream(E, st, a[1], inst, "fputc")
    if p is None:
        return []
    return printed(E, st, p, "fputc", None, (a[0],), inst)


@sysm("fwrite")
def f_write(E, st, a, inst):
    p = stream(E, st, a[3], inst, "fwrite")
    if p is None:
        return []
    n = E.as_int(st, a[1]) * 1 if not isinstance(a[1], Lin) else a[1]
    c = st.const(n)
    m = E.as_int(st, a[2])
    if c is None and st.const(m) is not None:
        c, m = st.const(m), n
    if c is not None:
        if mem_range(E, st, a[0], m.scale(c), inst, "read") is None:
            return []
    f = st.fork()
    fails(f, "fwrite")
    e = set_errno(E, f)
    f.g[("ferr", p.b)] = True
    r = fresh("fwrite", 0)
    f.cs.add_ge(E.as_int(st, a[2]) - r - 1)
    log(f, "print", False, p, "fwrite", st.rp(a[0]), (), r, e)
    log(st, "print", True, p, "fwrite", st.rp(a[0]), (), E.as_int(st, a[2]), None)
    return [(st, E.as_int(st, a[2])), (f, r)]


@sysm("fflush")
def f_flush(E, st, a, inst):
    p = st.rp(a[0]) if isinstance(a[0], Ptr) else E.i2p(st, a[0])
    if p.b != NULLB and stream(E, st, p, inst, "fflush") is None:
        return []
    f = st.fork()
    fails(f, "fflush")
    set_errno(E, f)
    return [(st, ZERO), (f, K(-1))]


@sysm("ferror", "feof")
def f_error(E, st, a, inst):
    nm = inst.x["callee"][1]
    p = stream(E, st, a[0], inst, nm)
    if p is None:
        return []
    if nm == "ferror" and ("ferr", p.b) in st.g:
        return [(st, ONE)]
    if nm == "ferror" and st.g.get(("file", p.b)) == "open" and ("fresh", p.b) in st.g:
        return [(st, ZERO)]
    f = st.fork()
    return [(st, ZERO), (f, ONE)]


@sysm("clearerr")
def f_clearerr(E, st, a, inst):
    p = stream(E, st, a[0], inst, "clearerr")
    if p is None:
        return []
    st.g.pop(("ferr", p.b), None)
    return [(st, None)]


@sysm("fileno")
def f_fileno(E, st, a, inst):
    if stream(E, st, a[0], inst, "fileno") is None:
        return []
    return [(st, fresh("fileno", 0, IMAX))]


@sysm("setvbuf")
def f_setvbuf(E, st, a, inst):
    if stream(E, st, a[0], inst, "setvbuf") is None:
        return []
    return [(st, ZERO)]


@sysm("access", "faccessat")
def f_access(E, st, a, inst):
    nm = inst.x["callee"][1]
    if need_cstr(E, st, a[0 if nm == "access" else 1], inst) is None:
        return []
    f = st.fork()
    f.note("%s: no" % nm)
    set_errno(E, f)
    return [(st, ZERO), (f, K(-1))]


@sysm("gettimeofday")
def c_gtod(E, st, a, inst):
    q = mem_range(E, st, a[0], K(16), inst, "write")
    if q is None:
        return []
    sec = fresh("tv_sec", 0, 2 ** 33)
    us = fresh("tv_usec", 0, 999999)
    E.write(st, q.b, q.off, K(8), sec)
    E.write(st, q.b, q.off + 8, K(8), us)
    log(st, "gettimeofday", sec, us)
    return [(st, ZERO)]


@sysm("ftell")
def f_tell(E, st, a, inst):
    p = stream(E, st, a[0], inst, "ftell")
    if p is None:
        return []
    f = st.fork()
    fails(f, "ftell")
    set_errno(E, f)
    n = fresh("ftell", 0, 2 ** 62)
    log(f, "ftell", False, p, None)
    log(st, "ftell", True, p, n)
    return [(st, n), (f, K(-1))]


@sysm("rename")
def f_rename(E, st, a, inst):
    for i in (0, 1):
        if need_cstr(E, st, a[i], inst) is None:
            return []
    f = st.fork()
    f.note("rename fails")
    set_errno(E, f)
    log(f, "rename", False, st.rp(a[0]), st.rp(a[1]), files(st))
    log(st, "rename", True, st.rp(a[0]), st.rp(a[1]), files(st))
    return [(st, ZERO), (f, K(-1))]


@sysm("time")
def c_time(E, st, a, inst):
    p = st.rp(a[0]) if isinstance(a[0], Ptr) else E.i2p(st, a[0])
    t = fresh("time", 0, 2 ** 33)
    if p.b != NULLB:
        q = mem_range(E, st, p, K(8), inst, "write")
        if q is None:
            return []
        E.write(st, q.b, q.off, K(8), t)
    log(st, "time", t)
    return [(st, t)]


TM = (("sec", 0, 60), ("min", 0, 59), ("hour", 0, 23), ("mday", 1, 31), ("mon", 0, 11), ("year", 0, 8099), ("wday", 0, 6), ("yday", 0, 365), ("isdst", -1, 1))


@sysm("localtime_r", "gmtime_r")
def c_localtime(E, st, a, inst):
    q = mem_range(E, st, a[0], K(8), inst, "read")
    d = mem_range(E, st, a[1], K(56), inst, "write")
    if q is None or d is None:
        return []
    t = E.read(st, q.b, q.off, 8, I(64))
    f = st.fork()
    fails(f, "localtime")
    log(f, "localtime", False, nm(inst), t, None)
    fl = []
    for i, (n, lo, hi) in enumerate(TM):
        v = fresh("tm_" + n, lo, hi)
        fl.append(v)
        E.write(st, d.b, st.cs.norm(d.off + 4 * i), K(4), v)
    log(st, "localtime", True, nm(inst), t, tuple(fl))
    return [(f, NULL), (st, st.rp(a[1]))]


# ---------------------------------------------------------------- descriptors
def sysfail(E, st, what, lo=1, hi=133):
    """the call fails: errno set, the first failure remembered"""
    fails(st, what)
    e = set_errno(E, st, lo, hi)
    st.g.setdefault("err1", (what, e))
    return e


def fd_new(E, st, name):
    v = fresh(name, 0, IMAX)
    st.g[("fd", v)] = "open"
    return v


def fd_key(st, v):
    for x in st.g:
        if isinstance(x, tuple) and len(x) == 2 and x[0] == "fd" and (x[1] == v or st.cs.entails_eq(x[1] - v)):
            return x
    return None


def fds(st, state="open"):
    return [k[1] for k, v in st.g.items() if isinstance(k, tuple) and len(k) == 2 and k[0] == "fd" and v == state]


def fd_use(E, st, v, inst, what):
    """descriptor argument of a call: [(state, norm value, key)], with -1 passed through as key None"""
    out = []
    for s, x in E.norm_s(st, E.as_int(st, v), 32):
        x = s.cs.norm(x)
        k = fd_key(s, x)
        if k is None and s.const(x) is not None and s.const(x) < 0:
            out.append((s, x, None))
            continue
        E.ob(s, "fd", k is not None and s.g[k] == "open", "%s works on an open descriptor" % what, inst,
             detail="%s is %s" % (x, s.g.get(k) if k else "unknown"))
        if k is not None:
            out.append((s, x, k))
    return out


@sysm("close")
def fd_close(E, st, a, inst):
    out = []
    for s, x, k in fd_use(E, st, a[0], inst, "close"):
        if k is None:
            set_errno(E, s, 9, 9)
            out.append((s, K(-1)))
            continue
        s.g[k] = "closed"
        f = s.fork()
        f.note("close fails")
        e = set_errno(E, f)
        log(s, "close", True, x, None)
        log(f, "close", False, x, e)
        out += [(s, ZERO), (f, K(-1))]
    return out


@sysm("open", "open64")
def fd_open(E, st, a, inst):
    if need_cstr(E, st, a[0], inst) is None:
        return []
    f = st.fork()
    sysfail(E, f, "open")
    mode = st.norm(a[2]) if len(a) > 2 else None
    log(f, "open", False, st.rp(a[0]), st.norm(a[1]), mode, None)
    v = fd_new(E, st, "fd")
    log(st, "open", True, st.rp(a[0]), st.norm(a[1]), mode, v)
    return [(st, v), (f, K(-1))]


def fill_stat(E, st, q):
    E.write(st, q.b, q.off, K(144), Havoc("stat"))
    n = fresh("st_size", 0, 2 ** 62)
    E.write(st, q.b, st.cs.norm(q.off + 48), K(8), n)
    return n


@sysm("stat", "stat64", "lstat", "lstat64")
def fd_stat(E, st, a, inst):
    if need_cstr(E, st, a[0], inst) is None:
        return []
    q = mem_range(E, st, a[1], K(144), inst, "write")
    if q is None:
        return []
    f = st.fork()
    sysfail(E, f, "stat")
    n = fill_stat(E, st, q)
    log(st, "stat", True, st.rp(a[0]), n)
    return [(st, ZERO), (f, K(-1))]


@sysm("fstat", "fstat64")
def fd_fstat(E, st, a, inst):
    q = mem_range(E, st, a[1], K(144), inst, "write")
    if q is None:
        return []
    out = []
    for s, x, k in fd_use(E, st, a[0], inst, "fstat"):
        f = s.fork()
        sysfail(E, f, "fstat")
        out.append((f, K(-1)))
        if k is not None:
            n = fill_stat(E, s, q)
            log(s, "stat", True, x, n)
            out.append((s, ZERO))
    return out


@sysm("sysconf")
def c_sysconf(E, st, a, inst):
    f = st.fork()
    sysfail(E, f, "sysconf")
    w = st.const(E.as_int(st, a[0]))
    return [(st, K(E.opts.get("page", 4096)) if w == 30 else fresh("sysconf", 0, 2 ** 40)), (f, K(-1))]


@sysm("getpagesize")
def c_getpagesize(E, st, a, inst):
    return [(st, K(E.opts.get("page", 4096)))]


@sysm("posix_fallocate", "posix_fallocate64")
def fd_fallocate(E, st, a, inst):
    out = []
    for s, x, k in fd_use(E, st, a[0], inst, "posix_fallocate"):
        for s1, off in E.norm_s(s, E.as_int(s, a[1]), 64):
            for s2, n in E.norm_s(s1, E.as_int(s1, a[2]), 64):
                f, i = s2.fork(), s2.fork()
                rc = fresh("fallocate", 1, 133)
                f.cs.add_ne(rc - 4)
                fails(f, "posix_fallocate")
                f.g.setdefault("err1", ("posix_fallocate", rc))
                log(f, "fallocate", rc, x, off, n)
                out.append((f, rc))
                i.note("posix_fallocate is interrupted")
                log(i, "fallocate", K(4), x, off, n)
                out.append((i, K(4)))
                if k is not None and s2.cs.add_ge(off) and s2.cs.add_ge(n - 1) and not s2.cs.bot:
                    log(s2, "fallocate", ZERO, x, off, n)
                    out.append((s2, ZERO))
    return out


@sysm("ftruncate", "ftruncate64")
def fd_truncate(E, st, a, inst):
    out = []
    for s, x, k in fd_use(E, st, a[0], inst, "ftruncate"):
        f = s.fork()
        sysfail(E, f, "ftruncate")
        log(s, "ftruncate", x, E.as_int(s, a[1]))
        out += [(s, ZERO), (f, K(-1))]
    return out


def maps(st, state="live"):
    return [(k[1], v[1]) for k, v in st.g.items() if isinstance(k, tuple) and k[0] == "map" and v[0] == state]


@sysm("mmap", "mmap64")
def fd_mmap(E, st, a, inst):
    out = []
    for s, x, k in fd_use(E, st, a[4], inst, "mmap"):
        for s0, off in E.norm_s(s, E.as_int(s, a[5]), 64):
            for s1, n in E.norm_u(s0, E.as_int(s0, a[1]), 64):
                f = s1.fork()
                sysfail(E, f, "mmap")
                out.append((f, Ptr(NULLB, K(-1))))
                if not (s1.cs.add_ge(n - 1) and s1.cs.add_ge(-n + 2 ** 47) and s1.cs.add_ge(off)) or s1.cs.bot:
                    continue
                rid = E.new_region(s1, "ext", "mapping", n, "sym")
                s1.g[("map", rid)] = ("live", s1.cs.norm(n))
                h = s1.norm(a[0])
                log(s1, "mmap", h, n, s1.norm(a[2]), s1.norm(a[3]), x, off, rid)
                out.append((s1, Ptr(rid)))
    return out


@sysm("munmap")
def fd_munmap(E, st, a, inst):
    p = st.rp(a[0]) if isinstance(a[0], Ptr) else E.i2p(st, a[0])
    m = st.g.get(("map", p.b))
    if p.b == NULLB:
        f = st.fork()
        sysfail(E, f, "munmap")
        log(st, "munmap", True, p, E.as_int(st, a[1]))
        return [(st, ZERO), (f, K(-1))]
    n = E.as_int(st, a[1])
    ok = m is not None and m[0] == "live"
    E.ob(st, "fd", ok, "munmap works on a live mapping", inst)
    if not ok:
        return []
    E.ob(st, "fd", st.cs.entails_eq(p.off) and st.cs.entails_eq(n - m[1]), "munmap covers exactly the mapping", inst, detail="%s+%s of %s" % (p.off, n, m[1]))
    st.g[("map", p.b)] = ("gone", m[1])
    st.mem[p.b] = st.mem[p.b].copy()
    st.mem[p.b].live = False
    f = st.fork()
    sysfail(E, f, "munmap")
    log(st, "munmap", True, p, n)
    log(f, "munmap", False, p, n)
    return [(st, ZERO), (f, K(-1))]


@sysm("msync", "mlock", "munlock", "madvise", "mlock2")
def fd_mrange(E, st, a, inst):
    p = st.rp(a[0]) if isinstance(a[0], Ptr) else E.i2p(st, a[0])
    f = st.fork()
    sysfail(E, f, nm(inst))
    log(st, nm(inst), True, p, E.as_int(st, a[1]), st.norm(a[2]) if len(a) > 2 else None)
    log(f, nm(inst), False, p, E.as_int(f, a[1]), f.norm(a[2]) if len(a) > 2 else None)
    return [(st, ZERO), (f, K(-1))]
