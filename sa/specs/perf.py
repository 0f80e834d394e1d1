"""Performance counters: sequences of start, pause and end against a model of
perf_event_open, prctl, read and the clock."""
from fractions import Fraction as Fr
import re
import struct
from ..spec import *
from .. import sysm, models, lin
from ..models import mem_range, set_errno, need_cstr
from ..sysm import log, events, fails, fd_new, fd_use
from .util import text_of

MODELS = dict(sysm.S)
ENABLE, DISABLE = 32, 31
OPEN = 298
ATTR = 64                       # first published size of the attribute structure
CLOCKS = (1, 4, 7)              # monotonic clocks

CACHE = {"L1D": 0, "L1I": 1, "LL": 2, "DTLB": 3, "ITLB": 4, "BPU": 5, "NODE": 6}
OPS = {"read": 0, "write": 1, "prefetch": 2}
WHAT = {"cpu-clock": (1, 0), "task-clock": (1, 1), "page-faults": (1, 2), "context-switches": (1, 3), "cpu-migrations": (1, 4),
        "page-fault-minor": (1, 5), "page-fault-major": (1, 6), "alignment-faults": (1, 7), "emulation-faults": (1, 8),
        "cpu-cycles": (0, 0), "instructions": (0, 1), "cache-references": (0, 2), "cache-misses": (0, 3), "branch-instructions": (0, 4),
        "branch-misses": (0, 5), "bus-cycles": (0, 6), "stalled-cycles-frontend": (0, 7), "stalled-cycles-backend": (0, 8),
        "ref-cpu-cycles": (0, 9)}
for _c, _n in CACHE.items():
    for _o, _k in OPS.items():
        for _r, _m in (("access", 0), ("miss", 1)):
            WHAT["%s-%s-%s" % (_c, _o, _r)] = (3, _n | _k << 8 | _m << 16)
DOCUMENTED = ("cpu-clock", "task-clock", "page-faults", "context-switches", "cpu-migrations", "page-fault-minor", "cpu-cycles",
              "instructions", "cache-misses", "L1D-read-miss", "L1I-read-miss")


def post(C, s, cond, msg, detail=None):
    return C.check(s, "post", cond, msg, detail)


# ------------------------------------------------------------ the system
def fail(E, st, what):
    f = st.fork()
    fails(f, what)
    set_errno(E, f)
    return f


def m_syscall(E, st, a, inst):
    out = []
    for s, n in E.norm_s(st, E.as_int(st, a[0]), 64):
        if s.const(n) != OPEN:
            s.exact = False
            out.append((s, fresh("syscall")))
            continue
        q = mem_range(E, s, a[1], K(ATTR), inst, "read")
        if q is None:
            continue
        at = {}
        size = s.const(E.read(s, q.b, s.cs.norm(q.off + 4), 4, I(32)))
        if size is None or size < ATTR or size % 8 or mem_range(E, s, a[1], K(size), inst, "read") is None:
            E.ob(s, "attr", None if size is None else False, "the attribute structure announces its own size", inst, detail=str(size))
            continue
        at["type"] = s.const(E.read(s, q.b, q.off, 4, I(32)))
        for o in range(8, size, 8):
            at[o] = s.const(E.read(s, q.b, s.cs.norm(q.off + o), 8, I(64)))
        pid, cpu, grp = [s.const(E.norm_s(s, E.as_int(s, x), 32)[0][1]) for x in a[2:5]]
        fl = s.const(E.as_int(s, a[5]))
        f = fail(E, s, "perf_event_open")
        log(f, "open", False)
        v = fd_new(E, s, "fd")
        log(s, "open", True, at, (pid, cpu, grp, fl), v)
        out += [(s, v), (f, K(-1))]
    return out


def m_prctl(E, st, a, inst):
    out = []
    for s, n in E.norm_s(st, E.as_int(st, a[0]), 32):
        k = s.const(n)
        E.ob(s, "attr", None if k is None else k in (ENABLE, DISABLE), "prctl switches the counters", inst, detail=str(k))
        f = fail(E, s, "prctl")
        log(s, "prctl", k)
        out += [(s, ZERO), (f, K(-1))]
    return out


def m_read(E, st, a, inst):
    out = []
    for s, x, k in fd_use(E, st, a[0], inst, "read"):
        if k is None:
            continue
        c = s.const(E.as_int(s, a[2]))
        q = mem_range(E, s, a[1], E.as_int(s, a[2]), inst, "write")
        if q is None:
            continue
        f = fail(E, s, "read")
        if c is None or c < 24:
            E.ob(s, "attr", None if c is None else False, "a read takes the value and both times", inst, detail=str(c))
            continue
        n = len(events(s, "open"))
        i = next((i for i, e in enumerate(events(s, "open")) if e[1] and s.eq(e[4] - x)), None)
        v = fresh("value", 0, U64)
        kind = s.g["sched"].get(i, "part") if i is not None else "part"
        if kind == "part":
            r = fresh("running", 1, U64)
            e = fresh("enabled", 1, U64)
            s.cs.add_ge(e - r)
        elif kind == "late":            # enabled, never on the CPU
            r, e, v = ZERO, fresh("enabled", 1, U64), ZERO
        else:                           # never enabled
            r, e, v = ZERO, ZERO, ZERO
        for o, w in ((0, v), (8, e), (16, r)):
            E.write(s, q.b, s.cs.norm(q.off + o), K(8), w)
        log(s, "read", i, v, e, r)
        g = s.fork()
        fails(g, "short read")
        out += [(s, K(24)), (f, K(-1)), (g, fresh("short", 0, 23))]
    return out


def m_clock(E, st, a, inst):
    q = mem_range(E, st, a[1], K(16), inst, "write")
    if q is None:
        return []
    cid = st.const(E.norm_s(st, E.as_int(st, a[0]), 32)[0][1])
    E.ob(st, "attr", None if cid is None else cid in CLOCKS, "elapsed time is measured on a clock that is never set", inst, detail="clock %s" % cid)
    f = fail(E, st, "clock_gettime")
    sec, ns = fresh("tv_sec", 0, 2 ** 33), fresh("tv_nsec", 0, 999999999)
    E.write(st, q.b, q.off, K(8), sec)
    E.write(st, q.b, st.cs.norm(q.off + 8), K(8), ns)
    t = sec.scale(10 ** 9) + ns
    p = events(st, "clock")
    if p:
        st.cs.add_ge(t - p[-1][1])
    log(st, "clock", t)
    return [(st, ZERO), (f, K(-1))]


def m_close(E, st, a, inst):
    out = []
    for s, x, k in fd_use(E, st, a[0], inst, "close"):
        if k is None:
            out.append((s, K(-1)))
            continue
        s.g[k] = "closed"
        log(s, "close", next((i for i, e in enumerate(events(s, "open")) if e[1] and s.eq(e[4] - x)), None))
        out.append((s, ZERO))
    return out


CONV = re.compile(r"%(?:%|([-+ #0]*)(\*|\d*)(?:\.(\*|\d*))?(hh|h|ll|l|L|z|j|t)?([a-zA-Z]))")


def m_print(E, st, a, inst):
    name = inst.x["callee"][1]
    if name == "fprintf":
        if "stdout" not in E.mod.globals:
            return [(st, fresh("printed", 0, 2 ** 31 - 1))]
        E.global_region(st, "stdout")
        if st.rp(a[0]) != st.rp(E.read(st, "@stdout", ZERO, 8, PTR)):
            return [(st, fresh("printed", 0, 2 ** 31 - 1))]
        a = a[1:]
    if need_cstr(E, st, a[0], inst) is None:
        return []
    t = text_of(E, st, st.rp(a[0]))
    va = list(a[1:])
    if t is None:
        st.exact = False
        return [(st, fresh("printed", 0, 2 ** 31 - 1))]
    for m in CONV.finditer(t):
        if m.group(0) == "%%":
            continue
        n = 1 + (m.group(2) == "*") + (m.group(3) == "*")
        args, va = va[:n], va[n:]
        if len(args) < n:
            E.ob(st, "va", False, "every conversion has its argument", inst)
            return []
        v = args[-1]
        if m.group(5) == "s":
            if need_cstr(E, st, v, inst) is None:
                return []
            log(st, "shown", name, "s", text_of(E, st, st.rp(v)))
        else:
            log(st, "shown", name, m.group(5), st.norm(v) if not isinstance(v, Lin) else v)
    return [(st, fresh("printed", 0, 2 ** 31 - 1))]


def m_abort(E, st, a, inst):
    E.ob(st, "post", bool(st.g.get("sysfail")) or st.g.get("misuse", False), "the process is only ended when the system refused", inst)
    return []


def m_none(E, st, a, inst):
    return [(st, ZERO)]


MODELS.update(syscall=m_syscall, prctl=m_prctl, read=m_read, clock_gettime=m_clock, close=m_close, printf=m_print, fprintf=m_print,
              abort=m_abort, puts=m_none, putchar=m_none, fputs=m_none, fputc=m_none, fwrite=m_none, fflush=m_none,
              exit=m_abort, _exit=m_abort, _Exit=m_abort)


# ------------------------------------------------ floating point as ratios
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            q = tuple(sorted(m + n))
            r[q] = r.get(q, 0) + c * d
    return {m: c for m, c in r.items() if c}


def plin(e):
    r = {(s,): Fr(c) for s, c in e.t}
    if e.c:
        r[()] = Fr(e.c)
    return r


PONE = {(): Fr(1)}


def ratio(st, e, depth=0):
    """a floating-point value over the reals: (polynomial, polynomial)"""
    if not isinstance(e, Lin) or depth > 60:
        return None
    if not e.t and e.c == 0:
        return {}, PONE
    if len(e.t) != 1 or e.c or e.t[0][1] != 1:
        return None
    d = lin.SYMS[e.t[0][0]].defn
    if not isinstance(d, tuple):
        return None
    op = d[0]
    if op in ("uitofp", "sitofp"):
        return plin(st.cs.norm(d[1])), PONE
    if op == "float":
        try:
            x = Fr(struct.unpack(">d", int(d[1], 16).to_bytes(8, "big"))[0]) if d[1].startswith("0x") else Fr(d[1])
        except (ValueError, OverflowError):
            return None
        return ({(): x} if x else {}), PONE
    if op in ("fpext", "fptrunc"):
        return ratio(st, d[1], depth + 1)
    if op == "fneg":
        a = ratio(st, d[1], depth + 1)
        return a and (padd({}, a[0], -1), a[1])
    if op == "fma":
        a, b, c = [ratio(st, x, depth + 1) for x in d[1:4]]
        if a is None or b is None or c is None:
            return None
        return padd(pmul(pmul(a[0], b[0]), c[1]), pmul(c[0], pmul(a[1], b[1]))), pmul(pmul(a[1], b[1]), c[1])
    if op in ("fmul", "fdiv", "fadd", "fsub"):
        a, b = ratio(st, d[1], depth + 1), ratio(st, d[2], depth + 1)
        if a is None or b is None:
            return None
        if op == "fmul":
            return pmul(a[0], b[0]), pmul(a[1], b[1])
        if op == "fdiv":
            return pmul(a[0], b[1]), pmul(a[1], b[0])
        return padd(pmul(a[0], b[1]), pmul(b[0], a[1]), 1 if op == "fadd" else -1), pmul(a[1], b[1])
    return None


def is_ratio(st, e, num, den):
    """does e equal num/den?  None: not expressible"""
    q = ratio(st, e)
    if q is None:
        return None
    if not q[1]:
        return False                    # division by zero
    return not padd(pmul(q[0], den), pmul(num, q[1]), -1)


# -------------------------------------------------------------- sequences
def globals_of(C):
    return [n for n, g in C.mod.globals.items() if not g.const and not g.external]


def opened(C, s, after, done):
    """a session opens every documented counter once, for the process that asked"""
    ev = [e for e in events(s, "open")][done:]
    for e in ev:
        at, (pid, cpu, grp, fl) = e[2], e[3]
        C.check(s, "attr", pid == 0 and cpu == -1 and grp == -1, "a counter follows the calling process on any CPU, on its own",
                "pid %s cpu %s group %s" % (pid, cpu, grp))
        C.check(s, "attr", fl is not None and fl & 8 == 8, "a counter is not handed to programs the process starts", "flags %s" % fl)
        C.check(s, "attr", at.get(32) == 3, "a read gives the value and both times", "read_format %s" % at.get(32))
        C.check(s, "attr", at.get(40) == 3, "a counter starts off, follows child threads, and counts everywhere", "bits %s" % at.get(40))
        C.check(s, "attr", all(v == 0 for o, v in at.items() if isinstance(o, int) and o not in (8, 32, 40)),
                "nothing else is asked for")
    kinds = [(e[2]["type"], e[2][8]) for e in ev]
    C.check(s, "attr", len(set(kinds)) == len(kinds) and set(kinds) >= set(WHAT[n] for n in DOCUMENTED),
            "each documented event is opened once", repr(kinds))
    return ev


def report(C, s, ev, base, mark, runs, sched):
    """what end printed since mark"""
    ops = s.g["log"][mark:]
    rd = {e[1]: e for e in ops if e[0] == "read"}
    cl = [e[1] for e in ops if e[0] == "close"]
    want = list(range(base, base + len(ev)))
    C.check(s, "fd", sorted(e[1] for e in ops if e[0] == "read") == want, "end reads each counter once", repr(sorted(rd)))
    C.check(s, "fd", sorted(cl, key=lambda i: -1 if i is None else i) == want and not sysm.fds(s), "end closes each counter once", repr(cl))
    shown = [e for e in ops if e[0] == "shown"]
    rows = {}
    i = 0
    while i < len(shown):
        if shown[i][2] == "s":
            vals = []
            j = i + 1
            while j < len(shown) and shown[j][2] != "s":
                vals.append(shown[j])
                j += 1
            if vals:
                rows.setdefault(shown[i][3], []).append(vals)
        i += 1
    t = rows.pop("time (seconds)", None)
    tot = ZERO
    for a, b in runs:
        tot = tot + b - a
    ok = bool(t) and len(t) == 1
    post(C, s, ok, "the elapsed time is printed once", "printed: %s" % ", ".join(sorted(str(x) for x in rows)))
    if ok:
        x = t[0][0][3]
        post(C, s, time_is(C, s, x, tot), "the time printed is that between each start and its pause or end, in seconds", describe(s, x))
    names = {v: n for n, v in WHAT.items()}
    for k, e in enumerate(ev):
        n = names.get((e[2]["type"], e[2][8]))
        post(C, s, n is not None, "every event opened is one the kernel defines", repr((e[2]["type"], e[2][8])))
        if n is None:
            continue
        r = rows.pop(n, None)
        ok = bool(r) and len(r) == 1 and len(r[0]) == 2
        post(C, s, ok, "each counter is printed once under its name, with its value and share of time", n)
        q = rd.get(base + k)
        if not ok or q is None:
            continue
        _, _, v, en, ru = q
        x, y = r[0][0][3], r[0][1][3]
        kind = sched.get(base + k, "part")
        if kind == "part":
            post(C, s, is_ratio(s, x, pmul(plin(s.cs.norm(v)), plin(s.cs.norm(en))), plin(s.cs.norm(ru))),
                 "a counter that ran part of the time is scaled to the whole: value x enabled / running", "%s: %s" % (n, describe(s, x)))
            post(C, s, is_ratio(s, y, pmul({(): Fr(100)}, plin(s.cs.norm(ru))), plin(s.cs.norm(en))),
                 "the share of time is running / enabled in percent", "%s: %s" % (n, describe(s, y)))
        else:
            post(C, s, is_ratio(s, x, {}, PONE), "a counter that never ran shows zero", "%s: %s" % (n, describe(s, x)))
            post(C, s, is_ratio(s, y, {}, PONE), "a counter that never ran shows no share of time", "%s: %s" % (n, describe(s, y)))
    post(C, s, not [n for n in rows if n in WHAT], "nothing is printed that was not counted", repr(sorted(map(str, rows))))


def time_is(C, s, e, tot):
    q = ratio(s, e)
    if q is None:
        return None
    if not q[1]:
        return False
    if not padd(pmul(q[0], {(): Fr(10 ** 9)}), pmul(plin(s.cs.norm(tot)), q[1]), -1):
        return True
    # equal up to what is known of the state
    d = lin.SYMS[e.t[0][0]].defn if isinstance(e, Lin) and len(e.t) == 1 else None
    if isinstance(d, tuple) and d[0] in ("fdiv", "fmul") and isinstance(d[1], Lin) and len(d[1].t) == 1:
        u = lin.SYMS[d[1].t[0][0]].defn
        b = ratio(s, d[2])
        if isinstance(u, tuple) and u[0] in ("uitofp", "sitofp") and b and set(b[0]) == {()} and set(b[1]) == {()}:
            k = b[0][()] / b[1][()]
            k = k if d[0] == "fdiv" else 1 / k
            if k == 10 ** 9:
                return s.eq(u[1] - tot)
    return False


def describe(s, e):
    q = ratio(s, e)
    if q is None:
        return repr(e)

    def f(p):
        return " + ".join("%s%s" % ("" if c == 1 and m else "%s " % c, " ".join(lin.SYMS[x].name for x in m)) for m, c in p.items()) or "0"
    return "(%s) / (%s)" % (f(q[0]), f(q[1]))


def step(C, states, fn):
    """run fn; every failed call ends the process"""
    out = []
    for s, _ in C.run(fn, [(s, []) for s in states]):
        bad = s.g.get("sysfail")
        post(C, s, not bad, "%s does not carry on after the system refused" % fn, repr(bad))
        if not bad:
            out.append(s)
    return out


SEQS = ("se", "spse", "sppe", "spspse", "spe", "sese", "sse", "sspse")


def run(C, seq, sched):
    """one sequence: s start, p pause, e end; sched: how often the counters ran, by position"""
    C.require("sc_perf_start", "sc_perf_pause", "sc_perf_end")
    C.E.opts["zero_globals"] = globals_of(C)
    st = State()
    st.g["sched"] = sched
    S = [st]
    for s in S:
        s.g["log"] = ()
        s.g["model"] = (0, 0, False, None, ())
    for c in seq:
        nxt = []
        for s in S:
            base, mark, live, since, runs = s.g["model"]
            k0 = len(s.g["log"])
            for t in step(C, [s], {"s": "sc_perf_start", "p": "sc_perf_pause", "e": "sc_perf_end"}[c]):
                new = t.g["log"][k0:]
                clk = [e[1] for e in new if e[0] == "clock"]
                sw = [e for e in t.g["log"] if e[0] == "prctl"]
                b, lv, sn, rs = base, live, since, runs
                if c == "s":
                    if not live:
                        b = len(events(s, "open"))
                        opened(C, t, k0, b)
                    else:
                        C.check(t, "fd", not [e for e in new if e[0] == "open"], "starting again opens nothing")
                    lv = True
                    order = [e[0] for e in new]
                    C.check(t, "attr", bool(sw) and sw[-1][1] == ENABLE and (live or order.index("prctl") > max(
                        [i for i, x in enumerate(order) if x == "open"] or [-1])), "start switches the counters on, once they are open")
                    if since is None:
                        post(C, t, bool(clk), "start notes the time")
                        sn = clk[-1] if clk else None
                else:
                    first = next((i for i, e in enumerate(new) if e[0] == "read"), len(new))
                    sw2 = [e for e in t.g["log"][:k0 + first] if e[0] == "prctl"]
                    C.check(t, "attr", bool(sw2) and sw2[-1][1] == DISABLE, "pause and end switch the counters off first")
                    if since is not None:
                        post(C, t, bool(clk), "pausing notes the time")
                        if clk:
                            rs = rs + ((since, clk[-1]),)
                        sn = None
                    if c == "e":
                        report(C, t, events(t, "open")[b:], b, k0, rs, sched)
                        lv, rs = False, ()
                    else:
                        C.check(t, "fd", not [e for e in new if e[0] in ("close", "read", "open")], "pausing keeps the counters")
                t.g["model"] = (b, k0, lv, sn, rs)
                nxt.append(t)
        S = nxt
    for s in S:
        post(C, s, True, "the sequence completes")
    post(C, S[0] if S else State(), bool(S), "some execution of the sequence completes")


def misuse(C):
    """pause or end without start ends the process"""
    C.require("sc_perf_pause", "sc_perf_end", "sc_perf_start")
    C.E.opts["zero_globals"] = globals_of(C)
    for pre in ("", "se"):
        for fn in ("sc_perf_pause", "sc_perf_end"):
            S = [State()]
            for s in S:
                s.g.update(log=(), sched={}, misuse=True)
            for c in pre:
                S = step(C, S, {"s": "sc_perf_start", "e": "sc_perf_end"}[c])
            for s in S:
                k0 = len(s.g["log"])
                got = False
                for t, _ in C.run(fn, [(s, [])]):
                    got = True
                    new = [e for e in t.g["log"][k0:] if e[0] in ("read", "close", "open", "prctl")]
                    post(C, t, False, "%s without a session ends the process" % fn, repr(new))
                post(C, s, not got, "%s without a session does not return" % fn)
