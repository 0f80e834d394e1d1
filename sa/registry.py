"""The properties and how each is decided."""
import importlib
import os
import sys
import traceback
from . import front
from .driver import parallel
from .eng import AnalysisError
from .spec import Ctx

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = {"bounds", "null", "uaf", "overlap", "double-free", "bad-free", "cstr", "div", "va", "uninit", "shift"}


def ctx(R, src, fn, kinds, opts=None, extra=None, defs=(), models=None, over=None):
    """load src, run the spec function on it, keep the obligations of the given kinds"""
    m = front.load(src, defs, extra or ())
    o = {"mode": "unroll", "unroll": 3}
    o.update(opts or {})
    C = Ctx(m, o, models)
    C.E.overrides.update(over or {})
    try:
        fn(C)
    except (AnalysisError, front.FrontError):
        raise
    except Exception as e:
        # what was established up to here stands; the rest is reported as not analysed
        sys.stderr.write(traceback.format_exc())
        C.lost.append((C.functions[-1] if C.functions else src, "internal error: %s: %s" % (type(e).__name__, e)))
    R.absorb(C, kinds, src)
    return C


PROPS = {}


def prop(pid, explain, run, **kw):
    d = dict(id=pid, explain=explain, run=run, level="other", assumptions=[], min_obligations=1)
    d.update(kw)
    PROPS[pid] = d


A_IR = "clang 18 lowers the C source to LLVM IR faithfully; the check reads that IR, rebuilt on every run"
A_LIBC = "libc behaves as modelled in sa/models.py (allocation may fail at every call, lengths and errno as POSIX says)"
A_SIZE = "no object or string is larger than PTRDIFF_MAX"

# ------------------------------------------------------------------ buffer
from .specs import buffer as _b

prop("C01", "abstract interpretation of every sc_buf function from every valid buffer shape (owned/NULL/referenced "
     "storage, error flag clear/set) with unconstrained 64-bit arguments: every load, store and libc range is inside "
     "its region, and on return rpos <= wpos <= cap <= storage size",
     lambda R, tier: ctx(R, "buffer/sc_buf.c", _b.bounds, GEN | {"inv"}), min_obligations=600,
     assumptions=[A_IR, A_LIBC, A_SIZE, "sc_buf_mark_read/mark_write/set_wpos are called within their documented range"])
prop("C02", "postconditions of every read function, split on (error flag, enough data), in the relational domain",
     lambda R, tier: ctx(R, "buffer/sc_buf.c", _b.reads, {"post"}), min_obligations=90, assumptions=[A_IR, A_LIBC, A_SIZE])
prop("C03", "bit provenance: each stored byte / returned value is expanded to input bits and compared with the "
     "little-endian layout; variable-length data is compared at an arbitrary symbolic index",
     lambda R, tier: (ctx(R, "buffer/sc_buf.c", _b.wire, {"wire"}),
                      ctx(R, os.path.join(VERIF, "witness") + "/buffer.c", _b.lengths, {"wire"})), min_obligations=120, assumptions=[A_IR, A_LIBC, A_SIZE])
prop("C04", "ownership typestate of the storage region plus relational postconditions of reserve/shrink/put/term",
     lambda R, tier: ctx(R, "buffer/sc_buf.c", _b.growth, {"own", "leak", "limit", "keep", "post", "double-free",
                                                          "bad-free", "uaf"}),
     min_obligations=90, assumptions=[A_IR, A_LIBC, A_SIZE])

# ------------------------------------------------------------------ string
from .specs import string as _s
_SB = "string/sc_str.c"


def _str(R, fns, kinds, unroll=2):
    for fn in fns:
        ctx(R, _SB, fn, kinds, {"unroll": unroll})


prop("C05", "abstract interpretation of every sc_str function on arbitrary length-prefixed strings (any length, embedded "
     "NULs): memory safety plus well-formedness of every string handed back (length header, storage, terminator)",
     lambda R, tier: _str(R, (_s.constructors, _s.mutators, _s.replace, _s.tokens), GEN | {"str"},
                          2 if tier == "quick" else 4), min_obligations=60, assumptions=[A_IR, A_LIBC, A_SIZE])
prop("C06", "typestate of the held string and of every allocation, on each exit with each allocation failing",
     lambda R, tier: _str(R, (_s.constructors, _s.mutators, _s.replace), {"atomic", "leak", "double-free", "bad-free", "uaf"},
                          2 if tier == "quick" else 4), min_obligations=30, assumptions=[A_IR, A_LIBC, A_SIZE])
prop("C07", "value provenance of every character of the result at an arbitrary index, against the documented operation",
     lambda R, tier: _str(R, (_s.constructors, _s.mutators, _s.replace, _s.tokens), {"content", "post"},
                          2 if tier == "quick" else 4), min_obligations=40, assumptions=[A_IR, A_LIBC, A_SIZE])

# ------------------------------------------------------------------ list, array, queue
from .specs import list as _l, containers as _c
_W = os.path.join(VERIF, "witness")

prop("C08", "shape analysis of every list operation over every ring of up to 4 elements plus the head (all alias "
     "patterns of the at most 4 nodes an operation reads), including self-linked and already linked elements; the "
     "iteration macros are analysed through their expansion in witness/list.c",
     lambda R, tier: ctx(R, _W + "/list.c", _l.run, GEN | {"list"}, {"unroll": 8}, models=_l.MODELS),
     min_obligations=200, assumptions=[A_IR])
prop("C09", "abstract interpretation of the array macros (expanded in witness/containers.c for 4-, 8-, pointer and "
     "24-byte elements) over arbitrary size and capacity; element provenance at an arbitrary index",
     lambda R, tier: (ctx(R, _W + "/containers.c", _c.arrays, GEN | {"inv", "content", "post", "leak"}, {"unroll": 8}, models=_c.MODELS),
                      [ctx(R, _W + "/containers.c", lambda C: _c.limited_arrays(C, mx), GEN | {"inv", "content", "post", "leak"}, {"unroll": 8},
                           defs=("SC_ARRAY_MAX=%dul" % mx,), models=_c.MODELS) for mx in (4096, 4092)]), min_obligations=120, assumptions=[A_IR, A_LIBC, A_SIZE])
prop("C10", "abstract interpretation of the queue macros over arbitrary ring positions at every tabulated power-of-two "
     "capacity; element provenance at an arbitrary index",
     lambda R, tier: (ctx(R, _W + "/containers.c", lambda C: _c.queues(C, tier), GEN | {"inv", "content", "post", "leak"},
                          {"unroll": 8}, models=_c.MODELS),
                      [ctx(R, _W + "/containers.c", lambda C: _c.limited_queues(C, 6, mx), GEN | {"inv", "content", "post", "leak"},
                           {"unroll": 8}, defs=("SC_QUEUE_MAX=%dul" % mx,), models=_c.MODELS) for mx in (64, 127)]), min_obligations=150, assumptions=[A_IR, A_LIBC, A_SIZE])

# ------------------------------------------------------------------ heap, map
from .specs import heap as _h, map as _m

prop("C11", "every heap shape of up to N elements with symbolic keys constrained only by heap order (the code uses keys "
     "through comparisons alone): add, pop, peek keep the order and exactly the expected elements; allocation failure changes nothing",
     lambda R, tier: (ctx(R, "heap/sc_heap.c", lambda C: _h.run(C, 8 if tier == "quick" else 18),
                          GEN | {"order", "inv", "post", "leak"}, {"unroll": 8}),
                      [ctx(R, "heap/sc_heap.c", lambda C: _h.limited(C, mx), GEN | {"order", "inv", "post", "leak"}, {"unroll": 8},
                           defs=("SC_HEAP_MAX=%dul" % mx,)) for mx in (8, 9)]), min_obligations=50,
     assumptions=[A_IR, A_LIBC, "heap storage is below 2^61 bytes", "heaps of more than N (quick 8, thorough 18) elements follow the same comparisons"])


def job(src, mod, fn, kinds, opts, *args, over=False, models=True, defs=(), extra=(), **kw):
    """a unit of work for parallel()"""
    def run(R):
        M = importlib.import_module("sa.specs." + mod)
        ctx(R, src, lambda C: getattr(M, fn)(C, *args, **kw), kinds, opts, extra, defs=defs, models=getattr(M, "MODELS", None) if models else None,
            over=getattr(M, "OVER", None) if over else None)
    return run


def par(R, jobs):
    JOBS[:] = jobs
    parallel(R, [(_nth, (i,)) for i in range(len(jobs))])


JOBS = []


def _nth(R, i):
    JOBS[i](R)


def _map(R, tier, kinds, parts):
    W = _W + "/map.c"
    o = {"unroll": 40}
    q = tier == "quick"
    J = []
    if "tables" in parts:
        for nm in _m.NAMES:
            for st in ([0], [6]) if q else ([0], [3], [6], [7]):
                two = nm in ("64", "str")
                J.append(job(W, "map", "tables", kinds, o, [nm], (2 if q else 3) if two else (1 if q else 2),
                             (4 if q else 5) if two else (1 if q else 3), st, over=True))
                if not two and q:
                    break
        for nm in _m.NAMES:
            J.append(job(W, "map", "cleared", kinds, o, [nm], over=True))
        J.append(job(W, "map", "foreach", kinds, o, over=True))
        J.append(job("map/sc_map.c", "map", "hashing", kinds, {"unroll": 3}))
    if "growth" in parts:
        for nm in ["64", "str"] if q else _m.NAMES:
            for k in range(4):
                J.append(job(W, "map", "growth", kinds, o, [nm], not q, k, over=True))
        for nm in _m.NAMES:
            J.append(job(W, "map", "lifecycle", kinds, o, [nm], over=True))
            J.append(job(W, "map", "limited", kinds, o, [nm], over=True, defs=("SC_MAP_MAX=15u",)))
    par(R, J)


prop("C12", "every table shape of capacity 8 with up to N entries and longer probe runs (occupied slots x home slots, the only "
     "things the code can observe), symbolic keys, values and hashes: after get/put/del each key is reachable from its home "
     "slot with its value; all 14 map types, iteration macros through witness/map.c",
     lambda R, tier: _map(R, tier, GEN | {"lookup", "table", "foreach"}, ("tables",)), min_obligations=500,
     assumptions=[A_IR, A_LIBC, "equal string keys hash equally (murmurhash is a function of the characters)"])
prop("C13", "growth at the load limit from representative shapes with every residue bit, initialisation for tabulated and "
     "out-of-range capacities and every load factor class, the shared empty table, and failing allocation",
     lambda R, tier: _map(R, tier, GEN | {"oom", "leak", "init", "table", "lookup"}, ("growth",)), min_obligations=500,
     assumptions=[A_IR, A_LIBC])

# ------------------------------------------------------------------ uri
from .specs import uri as _u


def _uri(R, tier):
    ins = _u.inputs(tier)
    n = 24 if tier == "quick" else 96
    par(R, [job("uri/sc_uri.c", "uri", "run", GEN | {"uri", "leak"}, {"unroll": 3}, ins[i::n]) for i in range(n)])
    R.notes.append("%d delimiter skeletons" % len(ins))


prop("C14", "abstract interpretation on delimiter skeletons (segments of unknown length and content between given delimiters) "
     "compared with the RFC 3986 split: bounds, NUL termination, character provenance of every part, refusals, leaks",
     _uri, min_obligations=60, assumptions=[A_IR, A_LIBC, "input shorter than INT_MAX characters",
                                            "inputs with more delimiters than the tabulated skeletons follow the same rules"])

# ------------------------------------------------------------------ ini
from .specs import ini as _i


def _ini(R, tier):
    k = GEN | {"ini", "leak"}
    D = ("__NO_CTYPE",)
    ins = _i.inputs(tier)
    n = 32 if tier == "quick" else 128
    J = [job("ini/sc_ini.c", "ini", "framing", k, {"unroll": 1}, defs=D)]
    J += [job("ini/sc_ini.c", "ini", "run", k, {"unroll": 12}, ins[i::n], 2, 100, defs=D) for i in range(n)]
    J += [job("ini/sc_ini.c", "ini", "run", k, {"unroll": 12}, ins[i::n], 1, 1, defs=D) for i in range(n)]
    ll = _i.long_inputs(tier)
    J += [job("ini/sc_ini.c", "ini", "run", k, {"unroll": 12}, ll[i::16], 2, 2, defs=D) for i in range(16)]
    par(R, J)
    R.notes.append("%d texts" % (len(ins) + len(ll)))


prop("C15", "abstract interpretation on delimiter skeletons of one to five lines (segments of unknown length and content between "
     "given delimiters), through both the string and the file entry point, compared with the documented line grammar: callback "
     "sequence, contents, line numbers, bounds, termination, file handle; overlong lines by a line-length adversary behind fgets",
     _ini, min_obligations=60, assumptions=[A_IR, A_LIBC, "every line behaves as one of the tabulated line forms"])

# ------------------------------------------------------------------ option
from .specs import option as _o


def _opt(R, tier):
    n = len(_o.SPECS)
    par(R, [job("option/sc_option.c", "option", "run", GEN | {"option"}, {"unroll": 5 if tier == "quick" else 8},
                _o.SPECS[i::n], tier != "quick") for i in range(n)])


prop("C16", "abstract interpretation on argument skeletons (every arrangement of '-', '=' and text of unknown length) against "
     "option tables of 0-4 entries with arbitrary letters and optional names of any length",
     _opt, min_obligations=20, assumptions=[A_IR, A_LIBC, "option letters are not NUL, '-', '=' or blank"])

# ------------------------------------------------------------------ mutex, condition, thread, time
from .specs import threads as _t
A_SYS = "pthread and system calls behave as modelled in sa/sysm.py (each may fail; results as POSIX says)"


def _thr(src, fn, kinds, unroll=3):
    return lambda R, tier: ctx(R, src, getattr(_t, fn), kinds, {"unroll": unroll if tier == "quick" else unroll + 5}, models=_t.MODELS)


prop("C17", "typestate of the mutex and its attributes through every sc_mutex function, each system call failing or not",
     _thr("mutex/sc_mutex.c", "mutex", GEN | {"lock", "post", "leak"}), min_obligations=20, assumptions=[A_IR, A_SYS])
prop("C18", "lock-set and typestate analysis of sc_cond with interference at every lock acquisition and wake-up: guarded "
     "fields, critical sections, predicate re-test, resources released on every exit",
     _thr("condition/sc_cond.c", "cond", GEN | {"lock", "post", "leak", "guard", "proto"}), min_obligations=40, assumptions=[A_IR, A_SYS])
prop("C19", "typestate of the thread identifier and attributes over init, start, join, term sequences, each call failing or not",
     _thr("thread/sc_thread.c", "thread", GEN | {"thread", "post", "leak", "err"}), min_obligations=40, assumptions=[A_IR, A_SYS])
prop("C20", "exact integer conversion of the clock reading; nanosleep protocol under interruptions",
     _thr("time/sc_time.c", "time", GEN | {"post"}), min_obligations=20,
     assumptions=[A_IR, A_SYS, "the clock stays below 2^33 seconds", "sleeps below 2^63 milliseconds"])

# ------------------------------------------------------------------ timer


def _tm(R, tier):
    q = tier == "quick"
    heads = (0, 13) if q else range(16)
    k = GEN | {"timer", "leak"}
    J = []

    def j(fn, *a, **kw):
        J.append(job("timer/sc_timer.c", "timer", fn, k, {"unroll": 40}, *a, **kw))
    j("limited", 2, 0, defs=("SC_TIMER_MAX=7u",))
    j("limited", 15, 17, defs=("SC_TIMER_MAX=5u",))
    for h in heads:
        j("single", h, h == 13)
        j("endless", h)
        for t in ((0, 3), (1, 17)) if q else ((0,), (1,), (2,), (3,), (15,), (16,), (17,), (33,)):
            j("steps", h, t)
        for p in ((0, 0), (1, 17), (3, 4)) if q else ((0, 0), (1, 17), (3, 4), (0, 15), (2, 2), (15, 31), (16, 0)):
            j("pairs", h, (p,))
    for h in (2, 15) if q else range(16):
        for t in (0, 1) if q else (0, 1, 2, 15, 16):
            j("grow", h, t)
        j("clear", h, 1)
        for what, full, dt, ek in (("add", True, 15, 2), ("add", True, 1, 16), ("add", True, 13, 4), ("add", True, 0, 2), ("add", False, 1, 3), ("add", "other", 4, 2),
                                   ("cancel", False, 0, 3), ("cancel", True, 0, 20), ("add", False, 0, 17)):
            j("reenter", h, 1, full, what, dt, ek)
    par(R, J)


prop("C21", "abstract interpretation of call sequences (add, timeout, cancel, clear, term, callbacks that add or cancel) with symbolic "
     "delays and timestamps; the callbacks caused are compared with the schedule",
     _tm, min_obligations=60, assumptions=[A_IR, A_LIBC, "timestamps below 2^63", "a wheel of 4 or 8 entries per slot; larger ones "
                                           "follow the same indexing", "the clock given does not run backwards"])

# ------------------------------------------------------------------ logger


def _lg(R, tier, kinds):
    J = []

    def j(fn, *a, **kw):
        for std, at in (("-std=c99", False), ("-std=c11", True)):
            J.append(job("logger/sc_log.c", "log", fn, kinds, {"unroll": 12}, *a, defs=("__NO_CTYPE",), extra=(std,), **dict(kw, **({} if fn in (
                "lifecycle", "names") else {"atomic": at}))))
    j("lifecycle")
    j("names")
    j("setters")
    for i in range(4):
        j("levels", i, 4)
    for n in range(7):
        j("badlevels", n)
    for lv in range(4):
        for i in range(8):
            j("logging", lv, bool(i & 1), bool(i & 2), bool(i & 4))
    if "va" in kinds:
        for named in (False, True):
            J.append(job(_W + "/log.c", "logm", "uses", kinds, {"unroll": 80}, named, defs=("SC_LOG_PRINT_FILE_NAME",) if named else ()))
    par(R, J)


prop("C22", "lock-set analysis of the shared logger state in both builds (C99 with the level under the mutex, C11 with it atomic), "
     "typestate of mutex and log file over every exit, with each call failing or not",
     lambda R, tier: _lg(R, tier, GEN | {"lock", "guard", "leak", "file", "name"}), min_obligations=150, assumptions=[A_IR, A_SYS])
prop("C23", "event sequences of sc_log_log for every level, threshold and set of sinks, with symbolic file size; setters and level names on "
     "unknown strings",
     lambda R, tier: _lg(R, tier, {"post", "va"}), min_obligations=50,
     assumptions=[A_IR, A_SYS, "the log file is below 2^62 bytes"])

# ------------------------------------------------------------------ mmap


def _mm(R, tier):
    k = GEN | {"fd", "leak", "post", "err", "range"}
    J = []
    for p in (0, 1, 2, 3):
        for z in (0, 1):
            J.append(job("memory-map/sc_mmap.c", "mmap", "init", k, {"unroll": 3 if tier == "quick" else 10}, p, z))
    for pg in (4096, 65536) if tier == "quick" else (4096, 8192, 16384, 65536, 2 ** 21):
        J.append(job("memory-map/sc_mmap.c", "mmap", "ranges", k, {"unroll": 3, "page": pg}))
    par(R, J)


prop("C24", "typestate of descriptor and mapping over init and term with every call failing, interrupted or not; exact arguments of every call; "
     "page arithmetic of the range functions on symbolic offsets",
     _mm, min_obligations=80, assumptions=[A_IR, A_SYS, "the page size is one of the tabulated powers of two", "ranges lie inside the mapping"])

# ------------------------------------------------------------------ sockets
SOCK = "socket/sc_sock.c"


def _sk(R, tier, kinds, parts):
    J = []
    thorough = tier != "quick"
    o = {"unroll": 4, "uninit": True}

    def j(fn, opts, *a, **kw):
        J.append(job(SOCK, "sock", fn, kinds, dict(o, **opts), *a, **kw))
    for fam in (1, 2, 10):
        for b in (0, 1):
            if "listen" in parts:
                j("listen", {"ai": 3 if thorough else 2, "unroll": 5}, fam, b)
                j("accept", {}, fam, b)
            if "connect" in parts:
                j("connect", {"ai": 3 if thorough else 2, "unroll": 5, "join_limit": 20000, "states": 20000}, fam, b, 0)
                for src in (1, 2, 3) if fam != 1 else ():
                    for x, y in ((2, 1), (1, 3)) if src == 3 or thorough else ((1, 2),):
                        j("connect", {"ai": x, "ai2": y}, fam, b, src)
    if "io" in parts:
        for f in ("send", "recv"):
            j("transfer", {"unroll": 12 if thorough else 4}, f, f)
        j("options", {})
        for f in ("local_str", "remote_str", "print"):
            j("strings", {}, f)
        j("systemd", {})
    if "pipe" in parts:
        j("pipes", {})
        for f in ("read", "write"):
            j("pipe_io", {"unroll": 12 if thorough else 4}, f)
        j("poll_life", {"unroll": 12 if thorough else 4})
        for f in ("add", "del"):
            j("poll_change", {}, f)
        j("poll_event", {}, 0, 32)
    par(R, J)


prop("C25", "typestate of descriptors and address lists over every exit of listen, connect, accept, term and notify, with each call failing or "
     "not, for address lists of several entries",
     lambda R, tier: _sk(R, tier, GEN | {"fd", "ai", "leak", "err"}, {"listen", "connect", "io"}), min_obligations=300,
     assumptions=[A_IR, A_SYS, "address lists of at most the number of entries analysed", "formatting an address does not fail"])
prop("C26", "event sequences of socket operations: arguments, order and mode of every call, results and errno, symbolic lengths and times",
     lambda R, tier: _sk(R, tier, {"post", "mode"}, {"listen", "connect", "io"}), min_obligations=80,
     assumptions=[A_IR, A_SYS, "address lists of at most the number of entries analysed", "an endless run of interrupted calls is cut after the "
                  "number of rounds unrolled"])
prop("C27", "exhaustive tabulation of registered mask, requested mask and kernel answer for the poller; typestate of pipe and poller",
     lambda R, tier: _sk(R, tier, GEN | {"post", "fd", "leak", "err", "order", "sync"}, {"pipe"}), min_obligations=150,
     assumptions=[A_IR, A_SYS, "Linux: the epoll branch of the poller"])

# ------------------------------------------------------------------ signal
SIGC = "signal/sc_signal.c"


def _sg(R, tier, kinds, fns):
    o = {"unroll": 30, "uninit": True, "ovf": True}
    J = []
    for f in fns:
        if f == "ints":
            from .specs import signal as m
            for c in m.INTS:
                J.append(job(SIGC, "signal", f, kinds, o, (c,)))
        else:
            J.append(job(SIGC, "signal", f, kinds, o))
    par(R, J)


prop("C28", "abstract interpretation of the formatter for every argument value and buffer size; the digits written are related to the argument "
     "by exact linear arithmetic",
     lambda R, tier: _sg(R, tier, GEN | {"post", "ovf"}, ("ints", "strings", "sequences", "unsupported", "any_text", "wrappers")), min_obligations=150,
     assumptions=[A_IR, A_SYS, "buffers below 2^31 bytes; plain text of up to three arbitrary characters and the formats listed, conversions are "
                  "independent of what stands around them"])
prop("C29", "call-graph closure of every installed handler against the async-signal-safe functions, event sequences of the handlers with each call failing or not",
     lambda R, tier: _sg(R, tier, GEN | {"post", "ovf", "safe"}, ("init", "shutdown", "crash", "closure")), min_obligations=120,
     assumptions=[A_IR, A_SYS, "backtrace() and backtrace_symbols_fd() are usable in a crash handler, as glibc documents",
                  "Linux x86-64, built with HAVE_BACKTRACE"])

# ------------------------------------------------------------------ sc


def _ut(R, tier, kinds, fns):
    o = {"unroll": 8, "uninit": True, "ovf": True}
    par(R, [job("sc/sc.c", "util", f, kinds, o) for f in fns] + [job(_W + "/log.c", "logm", "minmax", kinds, o)])


prop("C30", "abstract interpretation of the size and power-of-two helpers over every argument: exact linear arithmetic, bit provenance of the "
     "rounding, rational form of the number printed",
     lambda R, tier: _ut(R, tier, GEN | {"post", "ovf"}, ("pow2", "bytes_to_size", "size_to_bytes", "rand")), min_obligations=200,
     assumptions=[A_IR, A_LIBC, "strtoll, tolower and snprintf follow the C standard"])

# ------------------------------------------------------------------ crc32
from .specs import crc as _crc

prop("C31", "abstract interpretation over bit vectors of affine forms over GF(2): table construction by constant propagation, table lookups through "
     "their affine form, every loop closed by induction (register := Z^k register + fold of the next k bytes), which covers every length, address, "
     "content and starting value at once; and exact forms for short lengths at every alignment and for the block boundaries",
     lambda R, tier: parallel(R, _crc.jobs(tier)), min_obligations=200,
     assumptions=[A_IR, "x86 crc32 and AArch64 crc32c instructions follow their manuals",
                  "sc_crc32_init has been called before sc_crc32, as documented"])

# ------------------------------------------------------------------ perf
from .specs import perf as _pf


def _perf(R, tier):
    k = GEN | {"post", "fd", "attr"}
    o = {"unroll": 24, "masks": True, "uninit": False, "ovf": True, "states": 20000}
    J = [job("perf/sc_perf.c", "perf", "misuse", k, o)]
    n = len(_pf.DOCUMENTED)
    for q in _pf.SEQS:
        J.append(job("perf/sc_perf.c", "perf", "run", k, o, q, {}))
    for q in ("se", "spse", "sese") if tier == "quick" else _pf.SEQS:
        for i in range(n * q.count("e")):
            for w in ("late", "never"):
                J.append(job("perf/sc_perf.c", "perf", "run", k, o, q, {i: w}))
    par(R, J)


prop("C32", "event sequences of start, pause and end against a model of perf_event_open, prctl, read and the clock with every call failing or not; "
     "the values printed as ratios of polynomials in what the kernel reported",
     _perf, min_obligations=140,
     assumptions=[A_IR, A_SYS, "floating-point arithmetic is taken over the reals", "a failed close is not reported",
                  "call sequences of up to five calls (repeats of start, pause and end), one thread"])

# ------------------------------------------------------------------ macros
from .specs import macros as _mc

prop("C33", "every macro of the public headers expanded at uses written out two ways - a caller's variable renamed to each name the macro declares, "
     "an argument, the result or the statement put in brackets - whose IR must be the same; calls in an argument counted along the paths of the "
     "control flow graph",
     lambda R, tier: _mc.check(R, tier), min_obligations=400,
     assumptions=["clang 18 gives equal code to equal programs at -O0", "names that begin with an underscore are the library's"])

# ------------------------------------------------------------------ allocators
from .specs import alloc as _al

prop("C34", "every function of every module in a build with a configuration header: the functions it refers to, by call or by address, against the "
     "allocation functions of libc and those configured for the module",
     lambda R, tier: _al.check(R, tier), min_obligations=150,
     assumptions=[A_IR, "library functions outside the list hand out no storage the caller has to free with free()"])

# ------------------------------------------------------------------ shared state
from .specs import shared as _sh

prop("C35", "every definition with static storage in the modules that work on the caller's objects, with every use of its address followed through "
     "the functions of the module; every library function referred to, against the ones whose state all threads share",
     lambda R, tier: _sh.check(R, tier), min_obligations=300,
     assumptions=[A_IR, "strerror and getenv of this C library keep no state that a call changes (glibc since 2.32; no setenv at the same time)"])

# ------------------------------------------------------------------ random generator
from .specs import rand as _rn

prop("C36", "value numbering over byte-table terms: both functions evaluated on a symbolic seed, table and counters, crossing stores recognised as a "
     "swap, the resulting terms against RC4's",
     lambda R, tier: _rn.check(R, tier), min_obligations=2,
     assumptions=[A_IR, "the seed and the generator do not overlap", "longer reads repeat the step shown for the first bytes"])
