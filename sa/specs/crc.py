"""crc32: sc_crc32(crc, buf, len) is the CRC-32C of the len bytes, continued from crc."""
import os
from .. import front, ir
from ..gf2 import Exec, St, Reg, Ptr, BV, Lost, bits, step_bits, K, fresh, Stream, Frame
from ..lin import Cons

SRC = "crc32/sc_crc32.c"
CONFIGS = {
    "sw-le": ((), ()),
    "hw-x86": (("HAVE_CRC32C",), ("-msse4.2",)),
    "hw-arm": (("HAVE_CRC32C",), ("-target", "aarch64-linux-gnu", "-march=armv8.1-a", "-ffreestanding",
                                  "-I" + os.path.join(front.HERE, "witness", "freestanding"))),
    "sw-be": (("HAVE_BIG_ENDIAN",), ("-target", "powerpc64-unknown-linux-gnu", "-ffreestanding",
                                   "-I" + os.path.join(front.HERE, "witness", "freestanding"))),
}


def where(mod, inst):
    if inst is None or inst.dbg is None:
        return SRC
    f, l = mod.loc(inst.dbg)
    return "%s:%d" % (f, l)


class Cfg:
    def __init__(self, R, name):
        self.R = R
        self.name = name
        defs, extra = CONFIGS[name]
        self.m = ir.parse_module(front.compile_ir(SRC, defs, extra, passes="mem2reg,simplifycfg"))
        self.be = name == "sw-be"
        R.units.add(SRC + " " + " ".join("-D" + d for d in defs))
        self.mem = None

    def hook(self, E, tag):
        def h(kind, ok, fn, inst, msg, detail, st):
            self.R.fact("crc-" + kind, ok, "sc_crc32", where(self.m, inst), "[%s] %s in %s" % (self.name, msg, fn),
                        (tag + ": " + detail) if detail else tag)
        return h

    def end(self, E):
        self.R.functions |= E.visited
        self.R.insts += E.ninst

    def init(self, twice=False):
        """memory after sc_crc32_init()"""
        E = Exec(self.m, limit=30000000, hook=None)
        E.be = self.be
        E.hook = self.hook(E, "sc_crc32_init")
        self.R.entry.add("sc_crc32_init")
        st = St()
        outs = E.call(st, "sc_crc32_init", [])
        self.end(E)
        if len(outs) != 1:
            raise Lost("%d outcomes of sc_crc32_init" % len(outs))
        self.mem = {k: r for k, r in outs[0].mem.items() if k.startswith("@")}
        # once more: nothing changes
        try:
            again = E.call(outs[0].copy(), "sc_crc32_init", [])
            self.end(E)
            for s in again:
                for k, r in self.mem.items():
                    r2 = s.mem[k].cells
                    same = all(r2.get(o) == c for o, c in r.cells.items()) and len(r2) == len(r.cells)
                    self.R.fact("crc-init", same, "sc_crc32_init", SRC, "[%s] a second sc_crc32_init leaves %s as it was" % (self.name, k))
        except Lost as e:
            self.R.fact("crc-init", None, "sc_crc32_init", SRC, "[%s] a second sc_crc32_init" % self.name, str(e))
        return self.mem

    def start(self, E, size, base):
        st = St()
        for k, r in self.mem.items():
            c = r.copy(None)
            c.ro = True
            st.mem[k] = c
        st.mem["buf"] = Reg("buf", size, "data", base)
        return st

    def spec(self, E, n):
        """forms of the result for n bytes"""
        r = [f ^ 1 for f in E.crc]
        for k in range(n):
            r = step_bits(r, E.byte("buf", k))
        return [f ^ 1 for f in r]

    def fixed(self, n, align):
        """exact: n bytes at an address that is align mod 8"""
        E = Exec(self.m)
        E.be = self.be
        E.hook = self.hook(E, "len=%d, address %d mod 8" % (n, align))
        self.R.entry.add("sc_crc32")
        st = self.start(E, n, 0x10000 + align)
        E.crc = E.vec("crc")
        what = "[%s] %d bytes: the result is their CRC-32C continued from crc, for every content and every crc" % (self.name, n)
        tag = "address %d mod 8" % align
        try:
            outs = E.call(st, "sc_crc32", [BV(32, list(E.crc)), Ptr("buf", 0), n])
            want = self.spec(E, n)
            if not outs:
                self.R.fact("crc-value", False, "sc_crc32", SRC, what, tag + ": never returns")
            for s in outs:
                got = bits(s.ret, 32)
                bad = [i for i in range(32) if s.reduce(got[i] ^ want[i])]
                self.R.fact("crc-value", not bad, "sc_crc32", SRC, what, tag + (": " + self.diff(E, s, got, want, bad) if bad else ""))
        except Lost as e:
            self.R.fact("crc-value", None, "sc_crc32", SRC, what, "%s: %s" % (tag, e))
        self.end(E)

    def large(self, n, align):
        """a length far beyond what can be followed step by step, its loops closed by induction"""
        E = Exec(self.m, induct=True)
        E.be = self.be
        E.hook = None
        st = self.start(E, n, 0x10000 + align)
        E.crc = E.vec("crc")
        what = "[%s] %d bytes: every byte is taken into the result once" % (self.name, n)
        tag = "address %d mod 8" % align
        try:
            for s in E.call(st, "sc_crc32", [BV(32, list(E.crc)), Ptr("buf", 0), n]):
                g = E.stream(s.cons, [f ^ 1 for f in bits(s.ret, 32)], {})
                w = Stream(E.merge(s.cons, [(K(n), "vec", (("crc", 0),)), (K(n), "vec", (("const", 0xffffffff),)), (K(0), "fold", ("buf", K(0), K(n)))]))
                ok = True if same(E, s.cons, g, w) else False if not s.eqs and differ(E, s.cons, g, n) else None
                self.R.fact("crc-large", ok, "sc_crc32", SRC, what, tag + ("" if ok else ": got %r" % g))
        except Lost as e:
            self.R.fact("crc-large", None, "sc_crc32", SRC, what, "%s: %s" % (tag, e))
        self.end(E)

    def diff(self, E, st, got, want, bad):
        d = st.reduce(got[bad[0]] ^ want[bad[0]])
        sup = E.sup(d)[:6]
        return "result bits %s differ; bit %d by the input bits %s" % (
            bad[:8], bad[0], ", ".join({"one": "1", "vec": "crc.%s" % (a[-1],), "byte": "byte %s bit %s" % (a[-2], a[-1]) if len(a) > 3 else ""}[a[0]]
                                       for a in sup))

    def every(self):
        """all lengths and addresses: the loops closed by induction"""
        E = Exec(self.m, induct=True)
        E.be = self.be
        E.hook = self.hook(E, "every length")
        n = fresh("len", 0, 1 << 62)
        base = fresh("addr", 4096)
        st = self.start(E, n, base)
        E.crc = E.vec("crc")
        what = "[%s] every length and address: the result is the CRC-32C of the bytes continued from crc" % self.name
        try:
            outs = E.call(st, "sc_crc32", [BV(32, list(E.crc)), Ptr("buf", 0), n])
            for s in outs:
                if s.eqs:
                    raise Lost("result depends on data branches")
                got = [f ^ 1 for f in bits(s.ret, 32)]
                g = E.stream(s.cons, got, {})
                w = Stream(E.merge(s.cons, [(n, "vec", ((("crc"), 0),)), (n, "vec", (("const", 0xffffffff),)), (K(0), "fold", ("buf", K(0), n))]))
                ok = same(E, s.cons, g, w)
                self.R.fact("crc-induction", ok or None, "sc_crc32", SRC, what, "" if ok else "got %r, want %r" % (g, w))
            if not outs:
                raise Lost("no path to the end")
        except Lost as e:
            self.R.fact("crc-induction", None, "sc_crc32", SRC, what, str(e))
        self.R.notes.append("%s: %d loops closed by induction" % (self.name, E.loops))
        self.end(E)


def pin(c, e):
    """the only value of e, or None"""
    if e.is_const():
        return e.c
    lo, hi = c.bounds(e)
    if lo is not None and lo == hi:
        return lo
    # tight over the whole system?
    for v in (lo, hi):
        if v is not None and c.entails_eq(e - K(v)):
            return v
    return None


def differ(E, c, g, n):
    """g, whose exponents and ends are all constants, is not the checksum of n bytes"""
    t = []
    for e, k, x in g.t:
        v = pin(c, e)
        if v is None:
            return False
        if k == "fold":
            a, b = pin(c, x[1]), pin(c, x[2])
            if a is None or b is None:
                return False
            x = (x[0], K(a), K(b))
        t.append((K(v), k, x))
    t = E.merge(Cons(), t)
    f = [x for x in t if x[1] == "fold"]
    # the bytes covered and where the register ends up are enough to tell
    if len(f) != 1 or f[0][2][1:] != (K(0), K(n)) or f[0][0] != K(0):
        return True
    return False


def same(E, c, g, w):
    """equal sums: their difference merges to nothing"""
    left = E.merge(c, g.t + [t for t in w.t if t[1] == "vec"])
    f = [t for t in left if t[1] == "fold"]
    v = [t for t in left if t[1] == "vec"]
    wf = E.merge(c, [t for t in w.t if t[1] == "fold"])
    if v or len(f) != len(wf):
        return False
    for e, _, x in f:
        if not any(c.entails_eq(e - e2) and x[0] == y[0] and c.entails_eq(x[1] - y[1]) and c.entails_eq(x[2] - y[2]) for e2, _, y in wf):
            return False
    return True


def lengths(name, tier):
    out = [(n, a) for n in range(0, 26) for a in range(8)] + [(n, a) for n in range(26, 72) for a in (0, 5)]
    if name.startswith("hw"):
        out += [(n, a) for n in (255, 767, 768, 769, 775, 776, 783, 1536 + 9, 2048) for a in (0, 3)]
        out += [(n, a) for n in (6143, 6144, 6145 + 7, 6144 + 768 + 13) for a in (0, 7)]
        if tier == "thorough":
            out += [(n, a) for n in range(26, 72) for a in range(8)]
            out += [(n, a) for n in (12288 + 768 * 2 + 15, 6144 * 3) for a in (0, 1)]
    else:
        out += [(n, a) for n in (255, 256, 1031) for a in (0, 3)]
        if tier == "thorough":
            out += [(n, a) for n in range(26, 200) for a in range(8)] + [(4096 + 7, 1)]
    return out


def run(R, name, tier, part, parts):
    try:
        c = Cfg(R, name)
    except front.FrontError as e:
        if name in ("sw-le", "hw-x86"):
            raise
        # the cross targets have only a few headers here
        R.fact("crc-value", None, "sc_crc32", SRC, "[%s] unit compiled for another target" % name, str(e)[:300])
        return
    try:
        c.init()
    except Lost as e:
        R.fact("crc-value", None, "sc_crc32_init", SRC, "[%s] tables" % name, str(e))
        return
    if part == 0:
        c.every()
        for n in ((1 << 31) + 21, (1 << 32) + 13, (1 << 33) + 6144 + 9):
            for a in (0, 3):
                c.large(n, a)
    for i, (n, a) in enumerate(lengths(name, tier)):
        if i % parts == part:
            c.fixed(n, a)


def jobs(tier):
    out = []
    for name in CONFIGS:
        parts = 4 if name.startswith("hw") else 2
        out += [(run, (name, tier, p, parts)) for p in range(parts)]
    return out
