"""With a configuration header the allocation functions configured for a module are the only ones it uses."""
import os
import re
import shutil
import tempfile
from .. import front

W = os.path.join(front.HERE, "witness")
# module -> (source, functions its documentation lets a configuration define)
MODULES = {
    "array": (W + "/containers.c", ("realloc", "free")), "queue": (W + "/containers.c", ("calloc", "free")),
    "buf": ("buffer/sc_buf.c", ("calloc", "realloc", "free")), "heap": ("heap/sc_heap.c", ("malloc", "realloc", "free")),
    "map": ("map/sc_map.c", ("calloc", "free")), "sock": ("socket/sc_sock.c", ("malloc", "realloc", "free")),
    "str": ("string/sc_str.c", ("malloc", "realloc", "free")), "timer": ("timer/sc_timer.c", ("malloc", "free")),
    "uri": ("uri/sc_uri.c", ("malloc", "free")),
}
# the other modules get no storage of their own
NONE = ("condition/sc_cond.c", "crc32/sc_crc32.c", "ini/sc_ini.c", "linked-list/sc_list.c", "memory-map/sc_mmap.c", "mutex/sc_mutex.c",
        "option/sc_option.c", "perf/sc_perf.c", "sc/sc.c", "signal/sc_signal.c", "thread/sc_thread.c", "time/sc_time.c", "logger/sc_log.c")
LIBC = ("malloc", "calloc", "realloc", "reallocarray", "free", "cfree", "strdup", "strndup", "asprintf", "vasprintf", "aligned_alloc", "posix_memalign",
        "memalign", "valloc", "getline", "getdelim", "open_memstream", "__strdup", "__strndup", "__asprintf_chk", "__vasprintf_chk", "realpath",
        "get_current_dir_name", "tempnam", "wcsdup", "scandir")
PROTO = {"malloc": "void *%s(size_t n);", "calloc": "void *%s(size_t n, size_t m);", "realloc": "void *%s(void *p, size_t n);", "free": "void %s(void *p);"}


def check(R, tier):
    tmp = tempfile.mkdtemp(prefix="scsa.")
    try:
        with open(os.path.join(tmp, "config.h"), "w") as f:
            f.write("#ifndef W_CONFIG_H\n#define W_CONFIG_H\n#include <stddef.h>\n")
            for m, (_, fs) in MODULES.items():
                for x in fs:
                    f.write("#define sc_%s_%s w_%s_%s\n%s\n" % (m, x, m, x, PROTO[x] % ("w_%s_%s" % (m, x))))
            f.write("#endif\n")
        for m, (src, fs) in MODULES.items():
            for defs in ((), ("NDEBUG",)):
                scan(R, src, m, fs, ("SC_HAVE_CONFIG_H",) + defs, ("-I" + tmp,))
        for src in NONE:
            for defs in (("SC_HAVE_CONFIG_H",), ()):
                scan(R, src, None, (), defs, ("-I" + tmp,))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def scan(R, src, m, fs, defs, extra):
    text = front.compile_ir(src, defs, extra)
    name = src.replace(W, "witness")
    lines = dict((i, (int(l), sc)) for i, l, sc in re.findall(r"^!(\d+) = !DILocation\(line: (\d+),.*?scope: (!\d+)", text, re.M))
    used = set()
    nf = nc = 0
    for d in re.finditer(r"^define [^\n]*?@(\w+)\([^\n]*\{\n(.*?)^\}", text, re.M | re.S):
        fn = d.group(1)
        if m in ("array", "queue") and not fn.startswith(("w_" + m, "sc_" + m)):
            continue
        nf += 1
        R.functions.add(fn)
        bad = []
        for l in d.group(2).splitlines():
            if "llvm.dbg" in l:
                continue
            names = re.findall(r"@([\w.]+)", l)
            if not names:
                continue
            nc += " call " in l
            at = re.search(r"!dbg !(\d+)", l)
            at = lines.get(at.group(1), ("?",))[0] if at else "?"
            for x in names:
                k = re.match(r"w_([a-z]+)_(\w+)$", x)
                if x in LIBC:
                    bad.append("%s at line %s" % (x, at))
                elif k and k.group(1) in MODULES and k.group(2) in PROTO:
                    if k.group(1) == m:
                        used.add(k.group(2))
                        R.fact("allocator", True, fn, name, "%s uses the function configured for %s (%s, line %s)" % (fn, m, x, at))
                    else:
                        bad.append("%s at line %s, which is configured for another module" % (x, at))
        R.fact("allocator", not bad, fn, name, "%s gets and releases storage only as configured" % fn, "; ".join(bad[:4]))
    # a table of functions may hold one, too
    for g in re.finditer(r"^@([\w.]+) = [^\n]*\{?[^\n]*$", text, re.M):
        ref = [x for x in re.findall(r"ptr @(\w+)", g.group(0)) if x in LIBC]
        if ref:
            R.fact("allocator", False, g.group(1), name, "%s holds no allocation function" % g.group(1), " ".join(ref))
    R.callsites += nc
    R.units.add(name)
    R.entry |= set()
