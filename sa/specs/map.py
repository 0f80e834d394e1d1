"""Open-addressing hash map.

The table operations only compare keys for equality and use hashes through
their residue modulo the capacity, so a table of capacity 8 is determined, up
to renaming of keys, by which slots are occupied and by each entry's home
slot.  The spec enumerates those shapes; keys, values, counters and the stored
hashes stay symbolic.  Growth (8 -> 16) also fixes the next residue bit."""
from ..spec import *
from .. import bits
import itertools

SCALAR = {"int": (4, 4, 0), "intv": (4, 8, 1), "ints": (4, 8, 1), "ll": (8, 8, 0), "llv": (8, 8, 1), "lls": (8, 8, 1),
          "32": (4, 4, 0), "64": (8, 8, 0), "64v": (8, 8, 1), "64s": (8, 8, 1)}
STR = {"str": 1, "sv": 1, "s64": 0, "sll": 0}
NAMES = list(SCALAR) + list(STR)


CAPS = (0, 1, 7, 8, 9, 16, 17, 2 ** 30 + 1, 2 ** 31, 2 ** 31 + 1, U32)
BIG = len(CAPS)


def residue(C, s, x):
    if all(co % 16 == 0 for _, co in x.t):
        return x.c % 16
    for h in range(16):
        if bits.sameparts(s, [(x, 4)], [(K(h), 4)]) is True:
            return h
    return None


class M:
    """one map type"""

    def __init__(self, C, nm):
        self.C = C
        self.nm = nm
        self.S = "sc_map_" + nm
        self.T = "sc_map_item_" + nm
        self.isz = C.ssize(self.T)
        self.str = nm in STR
        self.vptr = STR[nm] if self.str else SCALAR[nm][2]
        self.ko, self.kn = C.foff(self.T, "key")
        self.vo, self.vn = C.foff(self.T, "value")
        if self.str:
            self.ho, self.hn = C.foff(self.T, "hash")
        self.nib = {}
        self.classes = (0, 2 ** 31) if self.kn == 4 else (0, 3 << 32, (2 ** 32 - 16) << 32, 2 ** 31, 2 ** 63 + 2 ** 31)

    def fn(self, op):
        return "sc_map_%s_%s" % (op, self.nm)

    # ---- keys: (kind, payload, residue mod 16)
    def newkey(self, st, name, h):
        """an arbitrary non-zero key whose hash is h modulo 16"""
        C = self.C
        if self.str:
            rid = C.E.new_region(st, "ext", name, K(16), "sym")
            hq = fresh("hq(%s)" % name, 0, 2 ** 28 - 1)
            st.g["hash"] = dict(st.g.get("hash", {}), **{})
            d = dict(st.g["hash"])
            d[rid] = hq.scale(16) + h
            st.g["hash"] = d
            c = dict(st.g.get("cls", {}))
            c[rid] = rid
            st.g["cls"] = c
            return dict(v=Ptr(rid), h=h, hash=hq.scale(16) + h)
        # every class of key: positive, with the sign bit, with something in the upper half
        cls = self.classes[(ord(name[1]) - 48 if len(name) > 1 else 2) % len(self.classes)]
        nib = self.nibble(st, cls, h)
        q = fresh("q(%s)" % name, 1 if nib == 0 and cls == 0 else 0, 2 ** 27 - 1)
        return dict(v=q.scale(16) + nib + cls, h=h, q=q, nib=nib, cls=cls)

    def nibble(self, st, cls, h):
        """the last hexadecimal digit of a key of this class whose hash is h modulo 16, as the code's own hash has it"""
        t = self.nib.get(cls)
        if t is None:
            t = self.nib[cls] = {}
            C = self.C
            for nib in range(16):
                r = None
                if self.fn("hashof") in C.mod.funcs:
                    s0 = State()
                    b = C.block(s0, "item", K(self.isz))
                    q = fresh("q", 1 if nib == 0 and cls == 0 else 0, 2 ** 27 - 1)
                    C.E.write(s0, b.b, K(self.ko), K(self.kn), q.scale(16) + nib + cls)
                    rs = set()
                    for s, v in C.aside(self.fn("hashof"), [(s0, [b])]):
                        rs |= {residue(C, u, x) for u, x in C.E.norm_u(s, C.E.as_int(s, v), 32)}
                    r = rs.pop() if len(rs) == 1 else None
                if r is not None and r not in t:
                    t[r] = nib
        if h not in t:
            # the hash does not depend on these digits alone: nothing can be said about the slots
            st.exact = False
            return h
        return t[h]

    def twin(self, st, key):
        """a key that differs from this one in its upper half only, with the same hash modulo 16"""
        if self.str or self.kn != 8:
            return None
        for d in (1 << 36, 1 << 37, 5 << 40):
            if self.nibble(State(), key["cls"] + d, key["h"]) == key["nib"]:
                return dict(key, v=key["v"] + d, cls=key["cls"] + d)
        return None

    def alias(self, st, key):
        """another spelling of the same key"""
        if not self.str:
            return key
        rid = self.C.E.new_region(st, "ext", "alias", K(16), "sym")
        d = dict(st.g["hash"])
        d[rid] = key["hash"]
        st.g["hash"] = d
        c = dict(st.g["cls"])
        c[rid] = key["v"].b
        st.g["cls"] = c
        return dict(v=Ptr(rid), h=key["h"], hash=key["hash"])

    def distinct(self, st, key, others):
        if self.str:
            return True
        for o in others:
            if (o["h"] - key["h"]) % 16 == 0 and not st.cs.add_ne(o["v"] - key["v"]):
                return False
        return True

    def newval(self, name):
        if self.vptr:
            return Ptr(("p", lin.new_sym(name)))
        return fresh(name, 0, 2 ** (8 * self.vn) - 1)

    # ---- tables
    def table(self, shape, used, cap=8, full=None):
        """shape: {slot: residue mod 16}.  full: True = at the growth limit,
        False = below it, None = either"""
        C = self.C
        st = State()
        m = C.new_struct(st, self.S, "m")
        blk = C.block(st, "slots", K((cap + 1) * self.isz), "heap", "zero")
        mem = Ptr(blk.b, K(self.isz))
        items = []
        for pos, h in sorted(shape.items()):
            k = self.newkey(st, "k%d" % pos, h)
            if not self.distinct(st, k, [x[0] for x in items]):
                return None
            v = self.newval("v%d" % pos)
            items.append((k, v))
            self.setitem(st, mem, pos, k, v)
        zv = self.newval("v0")
        if used:
            C.E.write(st, mem.b, mem.off - self.isz + self.vo, K(self.vn), zv)
        n = len(items) + used
        remap = fresh("remap", 2, cap - 1)
        if full is True:
            st.assume_eq(remap - n)
        elif full is False:
            st.assume_ge(remap, n + 1)
        else:
            st.assume_ge(remap, n)
        if st.cs.bot:
            return None
        for f, v in (("mem", mem), ("cap", K(cap)), ("size", K(n)), ("load_fac", fresh("load_fac", 25, 95)),
                     ("remap", remap), ("used", K(used)), ("oom", fresh("oom", 0, 1)), ("found", fresh("found", 0, 1))):
            C.put(st, m, self.S, f, v)
        return st, m, dict(items=items, zero=zv if used else None, mem=mem, cap=cap, n=n)

    def setitem(self, st, mem, pos, k, v):
        C = self.C
        o = mem.off + pos * self.isz
        C.E.write(st, mem.b, o + self.ko, K(self.kn), k["v"])
        C.E.write(st, mem.b, o + self.vo, K(self.vn), v)
        if self.str:
            C.E.write(st, mem.b, o + self.ho, K(self.hn), k["hash"])

    def keyat(self, s, mem, pos):
        return self.C.E.read(s, mem.b, s.cs.norm(mem.off + pos * self.isz + self.ko), self.kn,
                             PTR if self.str else I(8 * self.kn))

    def valat(self, s, mem, pos):
        return self.C.E.read(s, mem.b, s.cs.norm(mem.off + pos * self.isz + self.vo), self.vn,
                             PTR if self.vptr else I(8 * self.vn))

    def samekey(self, s, a, k):
        if self.str:
            q = s.rp(a) if isinstance(a, Ptr) else None
            return q is not None and s.g["cls"].get(q.b) == s.g["cls"].get(k["v"].b)
        return isinstance(a, Lin) and any(s.eq(a, k["v"] + d) for d in (0, -(1 << 8 * self.kn), 1 << 8 * self.kn))

    def sameval(self, s, a, v):
        if isinstance(a, Ptr) or isinstance(v, Ptr):
            return isinstance(a, Ptr) and isinstance(v, Ptr) and s.rp(a).b == s.rp(v).b and bool(s.eq(a.off, v.off))
        return self.C.same(s, a, v, 8 * self.vn)

    def iszero(self, s, a):
        """is the slot empty? True/False/None"""
        if isinstance(a, Ptr):
            return s.isnull(a)
        if s.eq(a):
            return True
        if s.ne(a):
            return False
        return None

    def check(self, s, m, items, zero, what, n=None):
        """the map holds exactly items (+ the zero key's value) and every key
        can be found from its home slot"""
        C = self.C
        cap = s.const(C.get(s, m, self.S, "cap"))
        mem = C.getp(s, m, self.S, "mem")
        size, used, remap = (s.norm(C.get(s, m, self.S, x)) for x in ("size", "used", "remap"))
        C.check(s, "table", bool(cap) and cap & (cap - 1) == 0, "capacity is a power of two", "%s" % cap)
        C.check(s, "table", s.eq(size, len(items) + (zero is not None)), "%s: element count" % what, "%s" % size)
        C.check(s, "table", s.eq(used, 0 if zero is None else 1), "%s: zero key presence" % what, "%s" % used)
        if not cap or cap > 64:
            return
        r = s.mem[mem.b]
        if r.kind == "const":
            C.check(s, "table", not items and zero is None and s.eq(remap), "%s: the shared empty table stays empty" % what)
            return
        C.check(s, "table", r.live and s.ge(r.size, K((cap + 1) * self.isz)) and s.eq(mem.off, self.isz),
                "table storage covers the capacity")
        C.check(s, "table", s.ge(remap, 1) and s.ge(K(cap - 1), remap),
                "growth limit leaves an empty slot", "remap=%s cap=%s" % (remap, cap))
        if zero is not None:
            C.check(s, "table", self.sameval(s, self.valat(s, mem, -1), zero), "%s: value of the zero key" % what)
        slots = {}
        left = list(range(len(items)))
        for pos in range(cap):
            a = self.keyat(s, mem, pos)
            z = self.iszero(s, a)
            if z is True:
                continue
            for i in left:
                if self.samekey(s, a, items[i][0]):
                    slots[pos] = i
                    left.remove(i)
                    break
            else:
                slots[pos] = None
        C.check(s, "table", not left and None not in slots.values(), "%s: exactly the expected keys are present" % what,
                "missing %d, foreign %s" % (len(left), [p for p in slots if slots[p] is None]))
        for pos, i in slots.items():
            if i is None:
                continue
            k, v = items[i]
            C.check(s, "table", self.sameval(s, self.valat(s, mem, pos), v), "%s: every key keeps its value" % what)
            if self.str:
                hv = C.E.read(s, mem.b, s.cs.norm(mem.off + pos * self.isz + self.ho), self.hn, I(8 * self.hn))
                C.check(s, "table", s.eq(hv, k["hash"]), "stored hash belongs to the stored key")
            p = k["h"] % cap
            ok = True
            while p != pos:
                if p not in slots:
                    ok = False
                    break
                p = (p + 1) % cap
            C.check(s, "table", ok, "%s: every key is reachable from its home slot" % what)
        C.check(s, "table", len(slots) < cap, "an empty slot always remains")

    def flag(self, s, m, f):
        return s.norm(self.C.get(s, m, self.S, f))


def shapes(nmax, starts=range(8), bit=True):
    """{slot: home residue} for every occupied set of at most nmax slots of 8"""
    out = []
    for n in range(nmax + 1):
        for occ in itertools.combinations(range(8), n):
            if n and not any(p in starts for p in occ):
                continue
            opts = []
            for p in occ:
                hs = []
                q = p
                while q in occ:
                    hs.append(q)
                    q = (q - 1) % 8
                    if q == p:
                        break
                opts.append(hs)
            for hs in itertools.product(*opts):
                out.append({p: h for p, h in zip(occ, hs)})
    return out


def clusters(n, starts):
    """one run of n occupied slots, all home assignments"""
    out = []
    for s in starts:
        occ = [(s + i) % 8 for i in range(n)]
        for hs in itertools.product(*[range(i + 1) for i in range(n)]):
            out.append({p: (s + h) % 8 for p, h in zip(occ, hs)})
    return out


def vary(sh, k):
    """choose the next residue bit of each entry (matters for growth only)"""
    return {p: h + (8 if (k >> i) & 1 else 0) for i, (p, h) in enumerate(sorted(sh.items()))}


def lookups(C, X, sh, used, ops):
    t = X.table(sh, used, full=False)
    if t is None:
        return
    st, m, i = t
    items, zero = i["items"], i["zero"]
    # hits
    if "hit" in ops:
        for j, (k, v) in enumerate(items):
            u = st.fork()
            key = X.alias(u, k)
            for s, r in C.run(X.fn("get"), [(u.fork(), [m, key["v"]])]):
                C.check(s, "lookup", s.eq(X.flag(s, m, "found"), 1), "get finds a key that is present")
                C.check(s, "lookup", X.sameval(s, r, v), "get returns the value of the key")
                X.check(s, m, items, zero, "get")
    if "del" in ops:
        for j, (k, v) in enumerate(items):
            u = st.fork()
            key = X.alias(u, k)
            for s, r in C.run(X.fn("del"), [(u, [m, key["v"]])]):
                C.check(s, "lookup", s.eq(X.flag(s, m, "found"), 1), "del finds a key that is present")
                C.check(s, "lookup", X.sameval(s, r, v), "del returns the value of the key")
                X.check(s, m, items[:j] + items[j + 1:], zero, "del")
    if "update" in ops:
        for j, (k, v) in enumerate(items):
            u = st.fork()
            key = X.alias(u, k)
            w = X.newval("w")
            for s, r in C.run(X.fn("put"), [(u, [m, key["v"], w])]):
                C.check(s, "lookup", s.eq(X.flag(s, m, "found"), 1), "put over a present key reports it")
                C.check(s, "lookup", X.sameval(s, r, v), "put over a present key returns the old value")
                X.check(s, m, items[:j] + [(k, w)] + items[j + 1:], zero, "update")
    if "miss" in ops:
        for h in range(8):
            u = st.fork()
            k = X.newkey(u, "k", h)
            if not X.distinct(u, k, [x[0] for x in items]):
                continue
            none(C, X, u, m, k, items, zero, h, i)
        for k, v in items:
            u = st.fork()
            k2 = X.twin(u, k)
            if k2 is not None and X.distinct(u, k2, [x[0] for x in items]):
                none(C, X, u, m, k2, items, zero, k2["h"], i)
    if "zero" in ops:
        zerokey(C, X, st, m, items, zero)


def none(C, X, u, m, k, items, zero, h, i):
    for fn in ("get", "del"):
        for s, r in C.run(X.fn(fn), [(u.fork(), [m, k["v"]])]):
            C.check(s, "lookup", s.eq(X.flag(s, m, "found"), 0), "%s of an absent key reports it absent" % fn)
            C.check(s, "lookup", s.isnull(r) if X.vptr else s.eq(r), "%s of an absent key returns zero" % fn)
            X.check(s, m, items, zero, "%s of an absent key" % fn)
    w = X.newval("w")
    for s, r in C.run(X.fn("put"), [(u.fork(), [m, k["v"], w])]):
        C.check(s, "lookup", s.eq(X.flag(s, m, "found"), 0), "put of a new key reports it new")
        C.check(s, "lookup", s.isnull(r) if X.vptr else s.eq(r), "put of a new key returns zero")
        C.check(s, "oom", s.eq(X.flag(s, m, "oom"), 0), "a successful put is not reported as out of memory")
        X.check(s, m, items + [(k, w)], zero, "put")


def zerokey(C, X, st, m, items, zero):
    z = NULL if X.str else ZERO
    for s, r in C.run(X.fn("get"), [(st.fork(), [m, z])]):
        C.check(s, "lookup", s.eq(X.flag(s, m, "found"), 0 if zero is None else 1), "get of the zero key tells its presence")
        if zero is not None:
            C.check(s, "lookup", X.sameval(s, r, zero), "get of the zero key returns its value")
        else:
            C.check(s, "lookup", s.isnull(r) if X.vptr else s.eq(r), "get of an absent key returns zero")
        X.check(s, m, items, zero, "get of the zero key")
    for s, r in C.run(X.fn("del"), [(st.fork(), [m, z])]):
        C.check(s, "lookup", s.eq(X.flag(s, m, "found"), 0 if zero is None else 1), "del of the zero key tells its presence")
        if zero is not None:
            C.check(s, "lookup", X.sameval(s, r, zero), "del of the zero key returns its value")
        X.check(s, m, items, None, "del of the zero key")
    w = X.newval("w")
    for s, r in C.run(X.fn("put"), [(st.fork(), [m, z, w])]):
        C.check(s, "lookup", s.eq(X.flag(s, m, "found"), 0 if zero is None else 1), "put of the zero key tells its presence")
        if zero is not None:
            C.check(s, "lookup", X.sameval(s, r, zero), "put of the zero key returns the old value")
        X.check(s, m, items, w, "put of the zero key")


def tables(C, names, nmax, ncl, starts):
    for nm in names:
        X = M(C, nm)
        C.require(*[X.fn(x) for x in ("init", "term", "size", "clear", "put", "get", "del")])
        for sh in shapes(nmax):
            lookups(C, X, sh, 0, ("hit", "del", "update"))
            if len(sh) < nmax:
                lookups(C, X, sh, 0, ("miss",))
            if len(sh) < 2:
                for used in (0, 1):
                    lookups(C, X, sh, used, ("zero", "miss", "hit", "del", "update"))
        for n in range(nmax + 1, ncl + 1):
            for sh in clusters(n, starts):
                lookups(C, X, sh, 0, ("del", "hit"))


def growth(C, names, thorough=False, part=0, parts=4):
    for nm in names:
        X = M(C, nm)
        for idx, sh in enumerate(shapes(2) + [{0: 0, 1: 0, 2: 1}, {6: 6, 7: 6, 0: 7, 1: 6}, {7: 7, 0: 7, 1: 7, 2: 7, 3: 3}, {0: 0, 1: 1, 2: 2, 3: 3, 4: 4, 5: 5},
                               {0: 7, 1: 7, 7: 7, 4: 3, 3: 3}]):
            if idx % parts != part:
                continue
            for used in (0, 1):
                if len(sh) + used < 2:
                    continue
                for b in (range(1 << len(sh)) if thorough or len(sh) < 3 else (0, 5, (1 << len(sh)) - 1)):
                    t = X.table(vary(sh, b), used, full=True)
                    if t is None:
                        continue
                    st, m, i = t
                    for h in ((0, 7, 15) if not thorough else range(16)):
                        u = st.fork()
                        k = X.newkey(u, "k", h)
                        if not X.distinct(u, k, [x[0] for x in i["items"]]):
                            continue
                        grow(C, X, u, m, k, i, i["items"] + ([] if k is None else []))
                    for z in (1,):
                        growzero(C, X, st.fork(), m, i)


def limited(C, names):
    """built with SC_MAP_MAX below twice the capacity of the table: it must not grow"""
    for nm in names:
        X = M(C, nm)
        for sh in shapes(2):
            for used in (0, 1):
                t = X.table(sh, used, full=True) if len(sh) + used >= 2 else None
                if t is None:
                    continue
                st, m, i = t
                k = X.newkey(st, "k", 7)
                if not X.distinct(st, k, [x[0] for x in i["items"]]):
                    continue
                w = X.newval("w")
                for s, r in C.run(X.fn("put"), [(st, [m, k["v"], w])]):
                    after(C, X, s, m, i, None, i["zero"], r, limit=True)


def grow(C, X, u, m, k, i, items):
    w = X.newval("w")
    for s, r in C.run(X.fn("put"), [(u, [m, k["v"], w])]):
        after(C, X, s, m, i, items + [(k, w)], i["zero"], r)


def growzero(C, X, u, m, i):
    w = X.newval("w")
    for s, r in C.run(X.fn("put"), [(u, [m, NULL if X.str else ZERO, w])]):
        after(C, X, s, m, i, i["items"], w, r)


def after(C, X, s, m, i, items, zero, r, limit=False):
    C.check(s, "leak", not C.leaks(s, [m]), "growth leaks nothing")
    if limit:
        C.check(s, "oom", not s.g.get("allocfail"), "nothing is allocated beyond the configured maximum")
    if limit or s.g.get("allocfail"):
        C.check(s, "oom", s.eq(X.flag(s, m, "oom"), 1), "a put that ran out of memory reports it")
        C.check(s, "oom", s.eq(X.flag(s, m, "found"), 0), "a failed put did not replace anything")
        C.check(s, "oom", s.isnull(r) if X.vptr else s.eq(r), "a failed put returns zero")
        C.check(s, "oom", s.sameptr(C.getp(s, m, X.S, "mem"), i["mem"]) and s.mem[i["mem"].b].live, "a failed put keeps the table")
        X.check(s, m, i["items"], i["zero"], "failed put")
    else:
        C.check(s, "oom", s.eq(X.flag(s, m, "oom"), 0), "a successful put is not reported as out of memory")
        X.check(s, m, items, zero, "growing put")
        for k, v in items:
            for t, q in C.aside(X.fn("get"), [(s.fork(), [m, k["v"]])]):
                C.check(t, "table", t.eq(X.flag(t, m, "found"), 1) and X.sameval(t, q, v), "a map that has grown still finds each key")


def lifecycle(C, names):
    for nm in names:
        X = M(C, nm)
        st = State()
        m = C.new_struct(st, X.S, "m")
        C.E.write(st, m.b, ZERO, K(C.ssize(X.S)), Havoc("uninitialised"))
        cap, lf = C.sym("cap", 0, U32), C.sym("load", 0, U32)
        caps = [[("eq", cap - c)] for c in CAPS] + [[("ge", cap - 2 ** 31 - 1)]]
        for t0, ci in cases(st, caps):
            for t1, li in cases(t0, [[("eq", lf)], [("ge", lf - 1), ("ge", -lf + 24)], [("ge", lf - 25), ("ge", -lf + 95)],
                                     [("ge", lf - 96)]]):
                t1.g["mapcap"] = ci
                for s, r in C.run(X.fn("init"), [(t1, [m, cap, lf])]):
                    C.check(s, "leak", not C.leaks(s, [m]) or s.eq(r), "init leaks nothing")
                    okr = s.eq(r, 1)
                    if li in (1, 3):
                        C.check(s, "init", s.eq(r, 0), "an invalid load factor is refused")
                        continue
                    if s.g.get("allocfail"):
                        C.check(s, "oom", s.eq(r, 0), "init reports a failed allocation")
                        C.check(s, "leak", not C.leaks(s, []), "a failed init leaks nothing")
                        continue
                    if not okr:
                        C.check(s, "init", ci == BIG or CAPS[ci] > 2 ** 31, "init only fails when memory fails or the capacity is too large")
                        C.check(s, "leak", not C.leaks(s, []), "a failed init leaks nothing")
                        continue
                    if ci == BIG or CAPS[ci] > 2 ** 31:
                        C.check(s, "init", False, "a capacity that cannot be represented is refused")
                        continue
                    C.check(s, "init", s.eq(X.flag(s, m, "size")) and s.eq(X.flag(s, m, "used")), "a new map is empty")
                    C.check(s, "init", s.eq(X.flag(s, m, "oom")) and s.eq(X.flag(s, m, "found")),
                            "a new map has its flags cleared")
                    c = s.const(X.flag(s, m, "cap"))
                    C.check(s, "init", c is not None and c >= CAPS[ci], "capacity covers the request", "%s" % c)
                    if c and c <= 64:
                        X.check(s, m, [], None, "init")
                    else:
                        rm = X.flag(s, m, "remap")
                        C.check(s, "init", s.ge(rm, 1) and s.ge(X.flag(s, m, "cap") - 1, rm), "growth limit leaves an empty slot")
                    if ci == 0:
                        # the shared empty table: queries work, the first put allocates
                        for h in (0, 5):
                            u = s.fork()
                            k = X.newkey(u, "k", h)
                            for fn in ("get", "del"):
                                for v, q in C.run(X.fn(fn), [(u.fork(), [m, k["v"]])]):
                                    C.check(v, "lookup", v.eq(X.flag(v, m, "found"), 0), "nothing is found in an empty map")
                                    X.check(v, m, [], None, fn)
                            w = X.newval("w")
                            i = dict(items=[], zero=None, mem=C.getp(u, m, X.S, "mem"))
                            for v, q in C.run(X.fn("put"), [(u, [m, k["v"], w])]):
                                after(C, X, v, m, i, [(k, w)], None, q)
                        zerokey0(C, X, s, m)
                    for fn in ("term", "clear"):
                        for v, q in C.run(X.fn(fn), [(s.fork(), [m])]):
                            if fn == "term":
                                C.check(v, "leak", not C.leaks(v, []), "term releases the table")
                                C.check(v, "init", v.mem[C.getp(v, m, X.S, "mem").b].kind == "const", "term leaves an empty map")
        for sh in shapes(2):
            for used in (0, 1):
                t = X.table(sh, used)
                if t is None:
                    continue
                st, m, i = t
                for s, r in C.run(X.fn("size"), [(st.fork(), [m])]):
                    C.check(s, "table", s.eq(r, i["n"]), "size is the number of keys")
                for s, r in C.run(X.fn("clear"), [(st.fork(), [m])]):
                    X.check(s, m, [], None, "clear")
                for s, r in C.run(X.fn("term"), [(st.fork(), [m])]):
                    C.check(s, "leak", not C.leaks(s, []), "term releases the table")


def cleared(C, names):
    """a cleared map has no key, and takes new ones"""
    for nm in names:
        X = M(C, nm)
        C.require(*[X.fn(x) for x in ("clear", "size", "put", "get", "del")])
        for sh in shapes(2):
            for used in (0, 1):
                t = X.table(sh, used)
                if t is None:
                    continue
                st, m, i = t
                for s, r in C.run(X.fn("clear"), [(st, [m])]):
                    X.check(s, m, [], None, "clear")
                    for v, q in C.run(X.fn("size"), [(s.fork(), [m])]):
                        C.check(v, "lookup", v.eq(q), "a cleared map has no keys")
                    for k, _ in i["items"]:
                        none(C, X, s, m, k, [], None, k["h"], i)
                    zerokey(C, X, s, m, [], None)


def zerokey0(C, X, s, m):
    z = NULL if X.str else ZERO
    for fn in ("get", "del"):
        for v, q in C.run(X.fn(fn), [(s.fork(), [m, z])]):
            C.check(v, "lookup", v.eq(X.flag(v, m, "found"), 0), "nothing is found in an empty map")
            X.check(v, m, [], None, fn)
    w = X.newval("w")
    u = s.fork()
    i = dict(items=[], zero=None, mem=C.getp(u, m, X.S, "mem"))
    for v, q in C.run(X.fn("put"), [(u, [m, z, w])]):
        after(C, X, v, m, i, [], w, q)


def foreach(C):
    C.widths("foreach", lambda n: n.startswith("w_"))
    for nm, fns in (("64", ("w_foreach_64", "w_foreach_key_64", "w_foreach_value_64")), ("str", ("w_foreach_str",))):
        X = M(C, nm)
        for sh in shapes(2) + [{7: 7, 0: 7, 1: 0}]:
            for used in (0, 1):
                t = X.table(sh, used)
                if t is None:
                    continue
                st, m, i = t
                for fn in fns:
                    if nm == "64":
                        fl, n = fn.replace("foreach", "leave"), len(i["items"]) + used
                        for s, r in C.finish(fl, [(st.fork(), [m])], "foreach", "iteration ends after the last element"):
                            w = C.leaving(s, n)
                            C.check(s, "foreach", w is not None and len(s.g.get("visits", ())) == len(w),
                                    "break and continue work in an iteration", "%s" % (s.g.get("choices"),))
                    for s, r in C.finish(fn, [(st.fork(), [m])], "foreach", "iteration ends after the last element"):
                        got = list(s.g.get("visits", ()))
                        want = list(i["items"]) + ([(None, i["zero"])] if used else [])
                        ok = len(got) == len(want)
                        for a, b in got:
                            for w in want:
                                wk, wv = w
                                ka = "value" in fn or (X.iszero(s, a) if wk is None else X.samekey(s, a, wk))
                                va = "key" in fn or bool(X.sameval(s, b, wv))
                                if ka and va:
                                    want.remove(w)
                                    break
                            else:
                                ok = False
                        C.check(s, "foreach", ok and not want, "iteration visits every key exactly once, with its value")
                        X.check(s, m, i["items"], i["zero"], "iteration")
    st = State()
    m = C.new_struct(st, "sc_map_64", "m")
    for s, r in C.run("sc_map_init_64", [(st, [m, ZERO, ZERO])]):
        for v, q in C.run("w_foreach_64", [(s, [m])]):
            C.check(v, "foreach", not v.g.get("visits"), "iterating an empty map visits nothing")


# ---- models
def visit(E, st, a, inst):
    st.g["visits"] = st.g.get("visits", ()) + ((a[0], a[1]),)
    return [(st, None)]


def strcmp(E, st, a, inst):
    p, q = st.rp(a[0]), st.rp(a[1])
    c = st.g.get("cls", {})
    if p.b in c and q.b in c:
        if c[p.b] == c[q.b]:
            return [(st, ZERO)]
        k = fresh("strcmp", -255, 255)
        st.cs.add_ne(k)
        return [(st, k)]
    from .. import models
    return models.M["strcmp"](E, st, a, inst)


def murmur(E, st, a, inst):
    h = st.g.get("hash", {}).get(st.rp(a[0]).b)
    if h is None:
        h = fresh("hash", 0, U32)
    return [(st, h)]


MODELS = {"w_choose": choose, "w_visit64": visit, "w_visitstr": visit, "strcmp": strcmp}
OVER = {"murmurhash": murmur}


def hashing(C):
    """the string hash reads the characters of its key and nothing else"""
    C.require("murmurhash")
    st = State()
    p, L = C.cstring(st, "key")
    for s, r in C.run("murmurhash", [(st, [p])]):
        C.check(s, "bounds", True, "hash computed")
