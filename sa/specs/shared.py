"""Objects of different threads do not meet: no writable data shared behind the caller's back."""
import os
import re
from .. import front

W = os.path.join(front.HERE, "witness")
# the modules whose state belongs to the objects the caller holds
OBJECTS = (W + "/containers.c", W + "/list.c", W + "/map.c", "buffer/sc_buf.c", "condition/sc_cond.c", "heap/sc_heap.c", "ini/sc_ini.c",
           "linked-list/sc_list.c", "map/sc_map.c", "memory-map/sc_mmap.c", "mutex/sc_mutex.c", "option/sc_option.c", "sc/sc.c",
           "socket/sc_sock.c", "string/sc_str.c", "thread/sc_thread.c", "time/sc_time.c", "timer/sc_timer.c", "uri/sc_uri.c")
# the ones with state of the process (decided elsewhere: C22 logger, C29 signal, C31 crc32, C32 perf)
PROCESS = ("logger/sc_log.c", "signal/sc_signal.c", "crc32/sc_crc32.c", "perf/sc_perf.c")
# library functions that keep state which all threads share
STATEFUL = set("""strtok localtime gmtime ctime asctime rand srand random srandom initstate setstate drand48 lrand48 mrand48 srand48 gethostbyname
gethostbyname2 gethostbyaddr getservbyname getservbyport getprotobyname getprotobynumber getnetbyname inet_ntoa setlocale tmpnam ttyname ptsname
getopt getopt_long getopt_long_only getpwnam getpwuid getgrnam getgrgid getlogin ecvt fcvt hcreate hsearch hdestroy l64a setenv putenv
unsetenv clearenv umask chdir strsignal nl_langinfo localeconv mblen mbtowc wctomb ether_ntoa crypt getmntent readdir64_static lgamma""".split())
GLOBALS = set("optarg optind opterr optopt signgam getdate_err environ timezone daylight tzname".split())
READS = set("""strlen strnlen strcmp strncmp strcasecmp strncasecmp memcmp bsearch memchr memrchr strchr strrchr strstr strspn strcspn strpbrk puts fputs
fwrite write send sendto perror atoi atol strtol strtoul strtoll strtoull open fopen rename stat unlink""".split())
FORMATS = {"printf": 0, "fprintf": 1, "vfprintf": 1, "dprintf": 1, "sprintf": 1, "snprintf": 2, "vsnprintf": 2, "vprintf": 0, "syslog": 1}
SRC = {"memcpy": 0, "memmove": 0, "strcpy": 0, "strncpy": 0, "strcat": 0, "strncat": 0, "llvm.memcpy": 0, "llvm.memmove": 0, "mempcpy": 0}


def check(R, tier):
    for src in OBJECTS + PROCESS:
        for defs in ((), ("NDEBUG",)):
            scan(R, src, defs, src in OBJECTS)


class Unit:
    def __init__(self, text):
        self.text = text
        self.funcs = {}
        for d in re.finditer(r"^define [^\n]*?@([\w.]+)\(([^\n]*?)\)[^\n()]*\{\n(.*?)^\}", text, re.M | re.S):
            ps = re.findall(r"%([\w.]+)(?=,|$)", re.sub(r"\([^()]*\)", "", d.group(2)))
            self.funcs[d.group(1)] = (ps, [l for l in d.group(3).splitlines() if "llvm.dbg" not in l])
        self.lines = {i: int(l) for i, l in re.findall(r"^!(\d+) = !DILocation\(line: (\d+)", text, re.M)}
        self.memo = {}
        # functions whose address is kept somewhere: what an unknown callee may be
        self.taken = {f for f in self.funcs if re.search(r"ptr (?:noundef )?@%s(?![\w.(])" % re.escape(f), text)}

    def back(self, fn, root, seen=()):
        """may fn return a pointer derived from root?"""
        if (fn, root) in seen:
            return False
        d = self.derived(fn, root, seen + ((fn, root),))
        return any(re.match(r"\s*ret ptr", l) and any(self.has(l, x) for x in d) for l in self.funcs[fn][1])

    def targets(self, l):
        """-> (names the call on this line may reach, its arguments)"""
        m = re.search(r"\bcall\b[^@%]*(?:\([^@]*?\) )?@([\w.]+)\((.*)\)", l)
        if m:
            return [m.group(1)], self.split(m.group(2))
        m = re.search(r"\bcall\b[^%@]*%[\w.]+\((.*)\)", l)
        if m:
            a = self.split(m.group(1))
            return [f for f in sorted(self.taken) if len(self.funcs[f][0]) == len(a)], a
        return [], []

    def derived(self, fn, root, seen=()):
        d = {root}
        body = self.funcs[fn][1]
        for _ in range(20):
            n = len(d)
            for l in body:
                m = re.match(r"\s*(%[\w.]+) = (getelementptr|phi|select|bitcast|addrspacecast)\b", l)
                if m and any(self.has(l[m.end(1):], x) for x in d):
                    d.add(m.group(1))
                    continue
                m = re.match(r"\s*(%[\w.]+) = (?:tail )?call\b[^@%]*\bptr\b", l)
                if m and m.group(1) not in d and any(self.has(l[m.end(1):], x) for x in d):
                    cs, args = self.targets(l)
                    for i, a in enumerate(args):
                        if any(self.has(a, x) for x in d) and any(c in self.funcs and i < len(self.funcs[c][0]) and
                                                                 self.back(c, "%" + self.funcs[c][0][i], seen) for c in cs):
                            d.add(m.group(1))
            if len(d) == n:
                break
        return d

    def at(self, l):
        m = re.search(r"!dbg !(\d+)", l)
        return self.lines.get(m.group(1), 0) if m else 0

    def writes(self, fn, root):
        """how fn may write what root (a name with its sigil) points into: [(certain, text)]"""
        key = (fn, root)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = []
        out = []
        body = self.funcs[fn][1]
        d = self.derived(fn, root)
        for l in body:
            hit = [x for x in d if self.has(l, x)]
            if not hit:
                continue
            m = re.match(r"\s*store (?:volatile |atomic )*\S+ (.*), ptr (.*?)(?:, align| seq_cst| release| monotonic|, !|$)", l)
            if m:
                if any(self.has(m.group(2), x) for x in hit):
                    out.append((True, "%s writes it (line %d)" % (fn, self.at(l))))
                else:
                    out.append((None, "%s keeps its address (line %d)" % (fn, self.at(l))))
                continue
            if re.search(r"\b(atomicrmw|cmpxchg)\b", l):
                out.append((True, "%s writes it (line %d)" % (fn, self.at(l))))
                continue
            cs, args = self.targets(l)
            if " call " in l:
                pos = [i for i, a in enumerate(args) if any(self.has(a, x) for x in hit)]
                if pos and not cs:
                    out.append((None, "%s hands it to a function of the caller's (line %d)" % (fn, self.at(l))))
                for callee, i in [(c, i) for c in cs for i in pos]:
                    base = re.sub(r"^(llvm\.\w+).*", r"\1", callee)
                    if callee in self.funcs:
                        ps = self.funcs[callee][0]
                        if i < len(ps):
                            out += self.writes(callee, "%" + ps[i])
                        else:
                            out.append((None, "%s passes it on to %s (line %d)" % (fn, callee, self.at(l))))
                    elif base in SRC:
                        if i == 0:
                            out.append((True, "%s has %s write it (line %d)" % (fn, base, self.at(l))))
                    elif callee in FORMATS:
                        if i < FORMATS[callee] and callee[0:2] not in ("fp", "vf", "dp", "sy"):
                            out.append((True, "%s has %s write it (line %d)" % (fn, callee, self.at(l))))
                    elif callee in READS:
                        pass
                    else:
                        out.append((True, "%s hands it to %s (line %d)" % (fn, callee, self.at(l))))
                continue
            if re.match(r"\s*ret ptr", l):
                out.append((None, "%s returns its address (line %d)" % (fn, self.at(l))))
        self.memo[key] = out
        return out

    @staticmethod
    def has(l, x):
        return re.search(re.escape(x) + r"(?![\w.$-])", l) is not None

    @staticmethod
    def split(a):
        out, depth, cur = [], 0, ""
        for c in a:
            if c == "," and depth == 0:
                out.append(cur)
                cur = ""
                continue
            depth += c in "([{"
            depth -= c in ")]}"
            cur += c
        return out + [cur]


def scan(R, src, defs, objects):
    text = front.compile_ir(src, defs)
    name = src.replace(W, "witness")
    u = Unit(text)
    R.functions |= set(u.funcs)
    R.units.add(name)
    for fn, (ps, body) in u.funcs.items():
        bad = []
        for l in body:
            for x in re.findall(r"@([\w.]+)", l):
                if x in STATEFUL or x in GLOBALS and x not in u.funcs:
                    bad.append("%s (line %d)" % (x, u.at(l)))
            R.callsites += " call " in l
        R.fact("shared-libc", not bad, fn, name, "%s uses no library function whose state all threads share" % fn, "; ".join(bad))
    if not objects:
        return
    for g, attrs in re.findall(r"^@([\w.$-]+) = ((?:[\w()]+ )*)(?:global) ", text, re.M):
        what = "%s is the same for all threads and never written" % g
        if "external" in attrs.split():
            R.fact("shared-data", True, g, name, what)
            continue
        if "thread_local" in attrs:
            R.fact("shared-data", True, g, name, "%s belongs to one thread" % g)
            continue
        ws = [w for fn in u.funcs for w in u.writes(fn, "@" + g)]
        ok = False if any(c for c, _ in ws) else None if ws else True
        if ok and "internal" not in attrs and "private" not in attrs:
            ok = None           # others may write it
        R.fact("shared-data", ok, g, name, what, "; ".join(sorted({t for _, t in ws})[:4]))
