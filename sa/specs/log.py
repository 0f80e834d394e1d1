"""Logger: sinks, levels, rotation, locking."""
from ..spec import *
from ..eng import Havoc
from .. import sysm, models
from ..models import const_string, use_va
from ..sysm import events, MTX

LIMIT = 2 * 1024 * 1024
NAMES = ["DEBUG", "INFO", "WARN", "ERROR", "OFF"]
S = "sc_log"
G = Ptr("@sc_log")


def m_tolower(E, st, a, inst):
    up = inst.x["callee"][1] == "toupper"
    lo, hi, d = (97, 122, -32) if up else (65, 90, 32)
    out = []
    for s, x in E.norm_s(st, E.as_int(st, a[0]), 32):
        x = s.cs.norm(x)
        for t, i in cases(s, [[("ge", -x - 1)], [("ge", x), ("ge", -x + (lo - 1))], [("ge", x - lo), ("ge", -x + hi)],
                              [("ge", x - hi - 1)]]):
            out.append((t, x + d if i == 2 else x))
    return out


def lower(c):
    return c + 32 if 65 <= c <= 90 else c


def m_strcasecmp(E, st, a, inst):
    """only as far as needed: both strings are walked like the plain C loop"""
    P = [st.rp(x) for x in a[:2]]
    if any(models.need_cstr(E, st, p, inst) is None for p in P):
        return []
    lim = st.const(E.as_int(st, a[2])) if len(a) > 2 else 64
    out = []
    todo = [(st, 0)]
    while todo:
        s, k = todo.pop()
        if lim is None or k >= lim:
            if lim is None or len(a) <= 2:
                s.exact = False
            out.append((s, ZERO))
            continue
        c = []
        for p in P:
            if isinstance(p.b, str) and p.b not in s.mem:
                E.global_region(s, p.b[1:])
            v = E.read(s, p.b, s.cs.norm(p.off + k), 1, I(8))
            c.append(E.as_int(s, v))
        for s1, x in m_lower(E, s, c[0], inst):
            for s2, y in m_lower(E, s1, c[1], inst):
                for t, i in cases(s2, [[("eq", x - y), ("eq", x)], [("eq", x - y), ("ne", x)], [("ge", x - y - 1)], [("ge", y - x - 1)]]):
                    if i == 0:
                        out.append((t, ZERO))
                    elif i == 1:
                        todo.append((t, k + 1))
                    else:
                        out.append((t, ONE if i == 2 else K(-1)))
    return out


def m_lower(E, st, c, inst):
    out = []
    for s, x in E.norm_u(st, c, 8):
        for t, i in cases(s, [[("ge", -x + 64)], [("ge", x - 65), ("ge", -x + 90)], [("ge", x - 91)]]):
            out.append((t, x + 32 if i == 1 else x))
    return out


def m_cb(E, st, a, inst, p):
    if st.rp(p) != st.rp(st.g.get("cb", NULL)):
        return models.default_ext(E, st, a, inst, "callback")
    use_va(E, st, a[3], inst)
    r = fresh("cb", -2 ** 31, 2 ** 31 - 1)
    sysm.log(st, "cb", st.norm(a[0]), st.norm(a[1]), st.rp(a[2]), st.rp(a[3]), r)
    return [(st, r)]


MODELS = dict(sysm.S)
MODELS.update({"tolower": m_tolower, "toupper": m_tolower, "*indirect*": m_cb, "strcasecmp": m_strcasecmp, "strncasecmp": m_strcasecmp})


def post(C, s, cond, msg, detail=None):
    return C.check(s, "post", cond, msg, detail)


def field(C, f):
    return C.foff(S, f)


def mkey(C, st):
    return sysm.objat(C, st, G, C.foff(S, "mtx")[0], MTX)


def setup(C, fp=False, live=True, guard=True, cb=False, atomic=False):
    st = State()
    E = C.E
    sysm.watch(E)
    sysm.std_streams(E, st)
    E.global_region(st, "sc_log")
    E.global_region(st, "sc_name")
    n = fresh("namelen", 0, 31)
    st.set_attr("@sc_name", "cstr", (ZERO, n))
    k = mkey(C, st)
    st.g["mk"] = k
    if live:
        st.g[k] = "free"
    C.put(st, G, S, "init", ONE if live else ZERO)
    f = sysm.new_file(E, st) if fp else NULL
    C.put(st, G, S, "fp", f)
    for a in ("current_file", "prev_file"):
        o, sz = field(C, a)
        E.write(st, "@sc_log", K(o + sz - 1), ONE, ZERO)
    st.g["fp0"] = f
    if guard:
        names = ["fp", "current_file", "prev_file", "file_size", "to_stdout", "arg", "cb"] + ([] if atomic else ["level"])
        rr = []
        for x in names:
            o, sz = field(C, x)
            rr.append((K(o), K(o + sz)))
        st.g[("guard", "@sc_log")] = (k, tuple(rr))
    return st, k, f


def quiet(st):
    """spec-side reads are not accesses of the code"""
    st.g["in_model"] = True


def code(st):
    st.g["in_model"] = False


def done(C, s, k, fn):
    quiet(s)
    C.check(s, "lock", s.g.get(k) == "free", "%s returns with the mutex released" % fn)
    C.check(s, "leak", not [x for x, v in sysm.live(s) if x != k], "%s releases its attributes" % fn)
    fp = s.rp(C.getp(s, G, S, "fp"))
    op = sysm.files(s)
    if C.null(s, fp):
        C.check(s, "leak", not op, "%s: no file stays open when none is recorded" % fn)
    else:
        C.check(s, "file", s.g.get(("file", fp.b)) == "open", "%s: the recorded file is open" % fn)
        C.check(s, "leak", op == [fp.b], "%s: the recorded file is the only one open" % fn)
    return fp


SETTINGS = ("level", "to_stdout", "arg", "cb")


def settings(C, st):
    """what the logger is set to; every call but the setter of a value leaves it alone"""
    g = {}
    quiet(st)
    for f in SETTINGS:
        g[f] = st.rp(C.getp(st, G, S, f)) if f in ("arg", "cb") else C.E.as_int(st, C.get(st, G, S, f))
    code(st)
    return g


def frame(C, s, g, fn, *own):
    for f in SETTINGS:
        if f in own:
            continue
        if f in ("arg", "cb"):
            same = s.rp(C.getp(s, G, S, f)) == s.rp(g[f])
        else:
            same = s.eq(C.E.as_int(s, C.get(s, G, S, f)), g[f])
        post(C, s, same, "%s leaves the other settings alone" % fn, f)


# ---------------------------------------------------------------- lifecycle
def lifecycle(C):
    C.require("sc_log_init", "sc_log_term", "sc_log_set_thread_name", "sc_log_set_level", "sc_log_set_stdout", "sc_log_set_file",
              "sc_log_set_callback", "sc_log_log")
    st, k, f = setup(C, live=False, guard=False)
    for s, r in C.run("sc_log_init", [(st, [])]):
        quiet(s)
        bad = bool(s.g.get("sysfail"))
        for t, o in cases(s, [[("eq", r)], [("ge", -r - 1)], [("ge", r - 1)]]):
            if o == 0:
                post(C, t, not bad, "init succeeds only when the mutex was created")
                C.check(t, "lock", t.g.get(k) == "free", "after init the mutex is usable")
                post(C, t, t.eq(C.get(t, G, S, "level"), 1), "the initial level is INFO")
                post(C, t, t.ge(C.get(t, G, S, "to_stdout"), 1), "stdout logging is initially on")
                post(C, t, t.isnull(C.getp(t, G, S, "cb")), "there is no callback initially")
                post(C, t, t.isnull(C.getp(t, G, S, "fp")), "there is no log file initially")
            else:
                post(C, t, o == 1, "a failed init returns a negative value")
                post(C, t, bad, "init only fails when the system refuses")
                post(C, t, t.ge(sysm.get_errno(C.E, t), 1), "a failed init sets errno")
            C.check(t, "leak", not [x for x, v in sysm.live(t) if x != k], "init releases its attributes")
            if o == 0:
                code(t)
                for u, r2 in C.run("sc_log_term", [(t, [])]):
                    post(C, u, u.eq(r2) and len(events(u, "mutex_destroy")) == 1, "what init set up term takes down")
        # using the logger after init, then term
    for fp in (False, True):
        st, k, f = setup(C, fp, guard=False)
        for s, r in C.run("sc_log_term", [(st, [])]):
            quiet(s)
            c = events(s, "fclose")
            C.check(s, "file", len(c) == (1 if fp else 0), "term closes the log file once")
            C.check(s, "lock", len(events(s, "mutex_destroy")) == 1, "term destroys the mutex once")
            C.check(s, "leak", not sysm.live(s) and not sysm.files(s), "term leaves nothing open")
            C.check(s, "file", s.isnull(C.getp(s, G, S, "fp")), "after term no log file is recorded")
            good = all(x[1] for x in c)
            for t, o in cases(s, [[("eq", r)], [("ge", -r - 1)], [("ge", r - 1)]]):
                if o == 0:
                    post(C, t, good, "term returns 0 only when the file was closed properly")
                else:
                    post(C, t, o == 1 and not good, "term fails only when closing the file failed")
            code(s)
            n = len(s.g["log"])
            for t, r2 in C.run("sc_log_term", [(s, [])]):
                post(C, t, t.ge(-r2 - 1) and len(t.g["log"]) == n, "a second term is refused and does nothing")
    st, k, f = setup(C, live=False, guard=False)
    for s, r in C.run("sc_log_term", [(st, [])]):
        post(C, s, s.ge(-r - 1) and not s.g.get("log"), "term without init is refused and does nothing")


def names(C):
    E = C.E
    for _ in (0,):
        st = State()
        E.global_region(st, "sc_name")
        sz = st.const(st.mem["@sc_name"].size)
        # the last byte is never written with anything but NUL
        E.write(st, "@sc_name", K(sz - 1), ONE, ZERO)
        s0, P = C.cstring(st, "name")[:2]
        for s, r in C.run("sc_log_set_thread_name", [(st, [s0])]):
            q = models.need_cstr(E, s, Ptr("@sc_name"), None)
            if q is None:
                continue
            C.check(s, "name", s.ge(-q[1] + sz - 1), "the thread name stays terminated inside its array")
            last = s.const(E.as_int(s, E.read(s, "@sc_name", K(sz - 1), 1, I(8))))
            C.check(s, "name", last == 0, "the last byte of the thread name stays NUL")
            for t in (s,):
                j = C.index(t, q[1])
                if j is None:
                    continue
                a = E.read(t, "@sc_name", j, 1, I(8))
                b = E.read(t, s0.b, t.cs.norm(s0.off + j), 1, I(8))
                C.check(t, "name", C.same(t, E.as_int(t, a), E.as_int(t, b)), "the thread name is the caller's, or its beginning")
                P1 = t.cs.norm(P - s0.off if isinstance(P, Lin) else P)
                for u, o in cases(t, [[("ge", -P1 + sz - 1)], [("ge", P1 - sz)]]):
                    C.check(u, "name", u.eq(q[1] - (P1 if o == 0 else sz - 1)), "a name that fits is kept whole", "%s of %s" % (u.cs.norm(q[1]), u.cs.norm(P1)))


# ---------------------------------------------------------------- setters
def levels(C, part, nparts, atomic=False):
    E = C.E
    cases_ = []
    for i, n in enumerate(NAMES):
        for m in range(1 << len(n)):
            cases_.append(("".join(ch.lower() if m >> j & 1 else ch for j, ch in enumerate(n)), i))
    cases_ = cases_[part::nparts]
    for txt, i in cases_:
        st, k, f = setup(C, atomic=atomic)
        p = C.block(st, "level", K(len(txt) + 1))
        E.write(st, p.b, ZERO, K(len(txt) + 1), ("bytes", txt.encode() + b"\0"))
        st.set_attr(p.b, "cstr", (ZERO, K(len(txt))))
        g = settings(C, st)
        for s, r in C.run("sc_log_set_level", [(st, [p])]):
            done(C, s, k, "set_level")
            frame(C, s, g, "set_level", "level")
            post(C, s, s.eq(r), "%s is accepted in any case" % NAMES[i])
            post(C, s, s.eq(C.get(s, G, S, "level"), i), "%s selects its level" % NAMES[i])


def badlevels(C, L, atomic=False):
    """strings of L unknown characters (6: longer)"""
    E = C.E
    st, k, f = setup(C, atomic=atomic)
    n = fresh("len", 6) if L == 6 else K(L)
    p = C.block(st, "level", n + 1)
    cs = []
    for i in range(L):
        c = fresh("c%d" % i, 1, 255)
        cs.append(c)
        E.write(st, p.b, K(i), ONE, c)
    st.set_attr(p.b, "cstr", (ZERO, n))
    if L < 6:
        E.write(st, p.b, K(L), ONE, ZERO)
    before = E.as_int(st, C.get(st, G, S, "level"))
    for s, r in C.run("sc_log_set_level", [(st, [p])]):
        done(C, s, k, "set_level")
        for t, o in cases(s, [[("eq", r)], [("ge", -r - 1)], [("ge", r - 1)]]):
            if o == 0:
                ok = False
                for i, w in enumerate(NAMES):
                    if len(w) == L and all(t.eq(c, ord(ch)) or t.eq(c, ord(ch) + 32) for c, ch in zip(cs, w)):
                        ok = True
                        post(C, t, t.eq(C.get(t, G, S, "level"), i), "the level stored is the one named")
                post(C, t, ok, "only the five level names are accepted")
            else:
                post(C, t, o == 1, "a bad level name gives a negative value")
                post(C, t, t.eq(C.get(t, G, S, "level"), before), "a bad level name changes nothing")


def setters(C, atomic=False):
    E = C.E
    st, k, f = setup(C, True, atomic=atomic)
    v = fresh("enable", 0, 1)
    g = settings(C, st)
    for s, r in C.run("sc_log_set_stdout", [(st, [v])]):
        if not s.sameptr(done(C, s, k, "set_stdout"), f):
            post(C, s, False, "set_stdout leaves the log file alone")
        frame(C, s, g, "set_stdout", "to_stdout")
        post(C, s, s.eq(C.get(s, G, S, "to_stdout"), v), "set_stdout stores the caller's choice")
    st, k, f = setup(C, True, atomic=atomic)
    arg, cb = Ptr(("p", lin.new_sym("arg"))), Ptr(("p", lin.new_sym("cb")))
    g = settings(C, st)
    for s, r in C.run("sc_log_set_callback", [(st, [arg, cb])]):
        if not s.sameptr(done(C, s, k, "set_callback"), f):
            post(C, s, False, "set_callback leaves the log file alone")
        frame(C, s, g, "set_callback", "arg", "cb")
        post(C, s, s.rp(C.getp(s, G, S, "arg")) == s.rp(arg) and s.rp(C.getp(s, G, S, "cb")) == s.rp(cb),
             "set_callback stores callback and argument")
        lg = events(s, "lock", "unlock")
        C.check(s, "lock", len(lg) == 2, "callback and argument change together")
    for fp in (False, True):
        for a, b, lim in ((0, 0, None), (0, 1, None), (1, 0, None), (1, 1, None), (1, 1, 254)):
            st, k, f = setup(C, fp, atomic=atomic)
            prev, Pp = C.cstring(st, "prev", lim or PTRDIFF - 1)[:2] if a else (NULL, None)
            cur, Pc = C.cstring(st, "current", lim or PTRDIFF - 1)[:2] if b else (NULL, None)
            if a and b:
                C.pre(st, prev.b), C.pre(st, cur.b)
            succ = False
            g = settings(C, st)
            st0 = st.fork()
            for s, r in C.run("sc_log_set_file", [(st, [prev, cur])]):
                now = done(C, s, k, "set_file")
                frame(C, s, g, "set_file")
                C.check(s, "file", len([e for e in events(s, "fclose") if e[2] == s.rp(f)]) == (1 if fp else 0), "the previous log file is closed once")
                op = events(s, "fopen")
                if not (a and b):
                    post(C, s, s.eq(r) and s.isnull(now) and not op, "a NULL name turns file logging off")
                    continue
                good = [e for e in op if e[1]]
                for t, o in cases(s, [[("eq", r)], [("ge", -r - 1)], [("ge", r - 1)]]):
                    if o:
                        post(C, t, o == 1 and t.isnull(now), "after a failed set_file there is no log file")
                        bad = bool(t.g.get("sysfail"))
                        if lim:
                            post(C, t, bad, "set_file fails only for names that do not fit or when the system refuses")
                        post(C, t, t.ge(sysm.get_errno(E, t), 1), "a failed set_file sets errno")
                        why = [e for e in events(t, "fopen", "print") if not e[1]]
                        if why and len(t.g["sysfail"]) == len(why) + len([e for e in events(t, "fclose") if not e[1]]):
                            post(C, t, t.eq(sysm.get_errno(E, t), why[-1][-1]), "a failed set_file leaves the errno of what failed")
                        continue
                    succ = True
                    post(C, t, not [e for e in events(t, "fopen", "print", "ftell") if not e[1]], "set_file succeeds only when nothing on the way failed")
                    post(C, t, bool(good) and t.sameptr(now, good[-1][4]), "set_file succeeds only with the log file open")
                    if not good:
                        continue
                    m = const_string(t, good[-1][3])
                    post(C, t, m is None or m[:1] == b"a", "the log file is opened for appending", repr(m))
                    te = events(t, "ftell")
                    if te and te[-1][1]:
                        post(C, t, t.eq(C.get(t, G, S, "file_size"), te[-1][3]), "the size counted starts at the size of the file")
                    for x, fld in ((prev, "prev_file"), (cur, "current_file")):
                        o_, sz = field(C, fld)
                        n = Pp if x is prev else Pc
                        z = t.const(E.as_int(t, E.read(t, "@sc_log", t.cs.norm(n + o_), 1, I(8))))
                        for kind in ("post", "name"):
                            C.check(t, kind, t.ge(-n + sz - 1) and z == 0, "the %s name is stored whole and terminated" % fld)
                        u = t.fork()
                        j = C.index(u, n)
                        if j is not None:
                            v1 = E.as_int(u, E.read(u, "@sc_log", u.cs.norm(j + o_), 1, I(8)))
                            v2 = C.byte(u, C.pre(u, x.b), u.cs.norm(x.off + j))
                            post(C, u, C.same(u, v1, v2), "the %s name stored is the caller's" % fld)
                    q = t.rp(good[-1][2])
                    post(C, t, q.b == "@sc_log" and t.eq(q.off - field(C, "current_file")[0]) or q == t.rp(cur), "the file opened is the current one")
            if a and b and not C.lost:
                post(C, st0, succ, "set_file can succeed")



# ---------------------------------------------------------------- logging
def logging(C, level, fp, cb, out, atomic=False):
    E = C.E
    st, k, f = setup(C, fp, atomic=atomic)
    quiet(st)
    cur = fresh("current level", 0, 4)
    C.put(st, G, S, "level", cur)
    C.put(st, G, S, "to_stdout", ONE if out else ZERO)
    arg, cbp = Ptr(("p", lin.new_sym("arg"))), C.block(st, "callback", K(1)) if cb else NULL
    C.put(st, G, S, "arg", arg)
    C.put(st, G, S, "cb", cbp)
    st.g["cb"] = cbp
    old = fresh("file_size", 0, 2 ** 62)
    C.put(st, G, S, "file_size", old)
    fmt = C.cstring(st, "fmt")[0]
    co, po = field(C, "current_file")[0], field(C, "prev_file")[0]
    code(st)
    outs = [(t, v) for s, r in C.run("sc_log_log", [(st, [K(level), fmt])]) for t, v in E.norm_s(s, E.as_int(s, r), 32)]
    for s, r in outs:
        now = done(C, s, k, "log")
        ev = s.g.get("log", ())
        for t, o in cases(s, [[("ge", cur - level - 1)], [("ge", K(level) - cur)]]):
            if o == 0:
                post(C, t, t.eq(r) and not [e for e in ev if e[0] in ("print", "cb", "fopen", "fclose")], "a message below the level goes nowhere")
                continue
            dest = t.g["stderr"] if level == 3 else t.g["stdout"]
            bad = False
            for on, rid, w in ((out, dest, "stdout"), (fp, f.b, "file")):
                pr = [(i, e) for i, e in enumerate(ev) if e[0] == "print" and e[2].b == rid]
                if not on:
                    post(C, t, not pr, "a sink that is off gets nothing")
                    continue
                lt = [e for e in ev if e[0] == "localtime" and not e[1]]
                ms = [x for x in pr if x[1][3] == "vfprintf"]
                failed = bool(lt) or any(not x[1][1] for x in pr)
                bad = bad or failed
                post(C, t, bool(ms) or failed, "an enabled %s sink gets the message" % w)
                post(C, t, len(ms) <= 1, "an enabled %s sink gets the message once" % w)
                if not ms:
                    continue
                i, m = ms[0]
                post(C, t, t.rp(m[4]) == t.rp(fmt), "the message is formatted with the caller's format")
                hd = [x for x in pr if x[0] < i]
                post(C, t, bool(hd), "the header comes before the message")
                post(C, t, not [x for x in pr if x[0] > i], "nothing follows the message")
                if hd:
                    seg = ev[hd[0][0]:i]
                    C.check(t, "lock", not [e for e in seg if e[0] in ("lock", "unlock")], "header and message are printed in one critical section")
                    header(C, t, hd, level, ev[:i])
            others = [e for e in ev if e[0] == "print" and e[2].b not in (dest, f.b)]
            post(C, t, not others, "nothing is printed to other files")
            cbs = [e for e in ev if e[0] == "cb"]
            if not cb:
                post(C, t, not cbs, "no callback is called when none is set")
            else:
                post(C, t, len(cbs) == 1, "the callback is called once")
                if cbs:
                    e = cbs[0]
                    post(C, t, t.rp(e[1]) == t.rp(arg) and t.eq(e[2], level) and t.rp(e[3]) == t.rp(fmt),
                         "the callback gets its argument, the level and the format")
            # rotation
            rot(C, t, ev, fp, f, old, now, co, po)
            reopen = [e for e in ev if e[0] == "fopen" and not e[1]]
            bad = bad or bool(reopen)
            alts = [[("eq", r)], [("ne", r)]]
            for u, o2 in cases(t, alts):
                zero = bool(cbs) and not u.eq(cbs[0][5]) if cb else False
                if o2 == 0:
                    post(C, u, not bad and (not cbs or u.eq(cbs[0][5])), "log returns 0 only when every sink succeeded",
                         "callback gave %s" % u.cs.norm(cbs[0][5]) if cbs else None)
                else:
                    nz = bool(cbs) and u.cs.entails_ne(cbs[0][5])
                    post(C, u, bad or nz, "log fails only when a sink failed")
                    if not cbs:
                        post(C, u, u.ge(-r - 1), "a failing sink gives a negative value")


def header(C, t, hd, level, ev):
    """what the header must tell, when it is printed by one fprintf"""
    i, e = hd[0]
    if e[3] != "fprintf" or len(hd) != 1 or len(e[5]) < 2:
        return
    lt = [x for x in ev if x[0] == "localtime" and x[1]]
    ptrs = [t.rp(x) for x in e[5] if isinstance(x, Ptr)]
    ints = [t.cs.norm(x) for x in e[5] if isinstance(x, Lin)]
    if any(p.b == "@sc_name" for p in ptrs) or len(ptrs) == 2:
        names = [const_string(t, p) for p in ptrs]
        C.check(t, "post", NAMES[level].encode() in names, "the header names the level of the message", repr(names))
        C.check(t, "post", any(p.b == "@sc_name" and t.eq(p.off) for p in ptrs), "the header names the thread")
    if lt and len(ints) == 6:
        tm = lt[-1][4]
        want = [tm[5] + 1900, tm[4] + 1, tm[3], tm[2], tm[1], tm[0]]
        C.check(t, "post", all(t.eq(a, b) for a, b in zip(ints, want)), "the header shows the local date and time")
        C.check(t, "post", lt[-1][2] == "localtime_r", "the header shows local time")


def rot(C, t, ev, fp, f, old, now, co, po):
    ren = [(i, e) for i, e in enumerate(ev) if e[0] == "rename"]
    op = [(i, e) for i, e in enumerate(ev) if e[0] == "fopen"]
    cl = [(i, e) for i, e in enumerate(ev) if e[0] == "fclose"]
    if not fp:
        post(C, t, not ren and not op and not cl, "no rotation without a log file")
        return
    pr = [e for e in ev if e[0] == "print" and e[2].b == f.b]
    size = old
    for e in pr:
        if e[1] and isinstance(e[6], Lin):
            size = size + e[6]
    failed = any(not e[1] for e in pr) or not pr
    exact = all(e[3] in ("fprintf", "vfprintf") for e in pr)
    if not ren:
        post(C, t, not op and not cl, "the log file is only reopened when it is rotated")
        if not failed and exact:
            post(C, t, t.ge(-size + LIMIT), "a file that has grown past the limit is rotated", "size %s" % t.cs.norm(size))
            post(C, t, t.eq(C.get(t, G, S, "file_size"), size), "the size counted is what was written", "%s, written %s" % (
                t.cs.norm(C.get(t, G, S, "file_size")), t.cs.norm(size)))
        return
    post(C, t, len(ren) == 1 and len(op) == 1 and len(cl) == 1, "rotation closes, renames and reopens once")
    if exact and not failed:
        post(C, t, t.ge(size - LIMIT), "only a file that has reached the limit is rotated", "size %s" % t.cs.norm(size))
    if not (len(ren) == 1 and len(op) == 1 and len(cl) == 1):
        return
    post(C, t, cl[0][0] < op[0][0] and ren[0][0] < op[0][0], "the full file is closed and renamed before the new one is opened")
    a, b = t.rp(ren[0][1][2]), t.rp(ren[0][1][3])
    post(C, t, a.b == "@sc_log" and t.eq(a.off, co) and b.b == "@sc_log" and t.eq(b.off, po), "the current file is renamed to the previous one")
    q = t.rp(op[0][1][2])
    post(C, t, q.b == "@sc_log" and t.eq(q.off, co), "the new file is the current one")
    m = const_string(t, op[0][1][3])
    post(C, t, m is None or m[:1] in (b"w", b"a"), "the new file is opened for writing", repr(m))
    post(C, t, (t.sameptr(now, op[0][1][4]) if op[0][1][1] else t.isnull(now)), "the file recorded is the new one, or none")
    if op[0][1][1]:
        if ren[0][1][1] or m is None or m[:1] == b"w":
            post(C, t, t.eq(C.get(t, G, S, "file_size")), "the new file is counted from zero")
        else:
            post(C, t, not t.eq(C.get(t, G, S, "file_size")), "a file that could not be renamed and is continued is not counted from zero")
