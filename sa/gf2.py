"""Abstract interpretation of linear code over GF(2).

Values are bit vectors whose bits are affine forms over GF(2) in a set of
atoms (the bits of the inputs), and integers that are affine in the symbols of
sa/lin.py.  xor, shifts, truncation, table lookups through an affine table,
and the crc32 instructions are exact in this domain, so what a function
computes is one set of forms for every content of its input at once.

Two ways over a loop: `unroll` follows it (the trip count is a constant), and
`induct` finds the change one iteration makes to every loop-carried value
(numbers: a constant step; data: R := Z^k R + fold(bytes p..p+k), Z being the
operator that feeds one zero byte to the register) and closes it, which covers
every trip count.  Nothing here is run, and no solver is asked."""
from . import lin
from .lin import Lin, K, Cons, fresh, V, new_sym

POLY = 0x82f63b78


class Lost(Exception):
    """the domain cannot express this: undecided"""

    def __init__(self, msg, sym=None):
        Exception.__init__(self, msg)
        self.sym = sym


class BV:
    __slots__ = ("w", "b")

    def __init__(self, w, b):
        self.w = w
        self.b = b

    def __repr__(self):
        return "BV%d" % self.w


class Ptr:
    __slots__ = ("r", "o", "tab")

    def __init__(self, r, o, tab=None):
        self.r = r
        self.o = o
        self.tab = tab        # (BV, stride)

    def __repr__(self):
        return "%s+%r" % (self.r, self.o)


def mk(w, b):
    v = 0
    for i, f in enumerate(b):
        if f == 1:
            v |= 1 << i
        elif f:
            return BV(w, list(b))
    return v


def bits(v, w):
    if isinstance(v, int):
        return [(v >> i) & 1 for i in range(w)]
    if isinstance(v, BV):
        return v.b
    if isinstance(v, Lin):
        if v.is_const():
            return [(v.c >> i) & 1 for i in range(w)]
        raise Lost("bits of the number %r" % v, v)
    raise Lost("bits of %r" % (v,))


def num(v):
    if isinstance(v, Lin):
        return v
    if isinstance(v, int):
        return K(v)
    raise Lost("number of %r" % (v,))


def simp(v):
    if isinstance(v, Lin) and v.is_const():
        return v.c
    return v


# ------------------------------------------------------------ the register
def step_bits(reg, data):
    """forms of the reflected CRC-32C register after the data bits (LSB first)"""
    r = list(reg)
    for d in data:
        out = r[0] ^ d
        r = r[1:] + [0]
        if out:
            for i in range(32):
                if POLY >> i & 1:
                    r[i] ^= out
    return r


def _mat_zero(nbytes):
    """Z^nbytes: columns as ints (image of unit vectors)"""
    return [sum(x << i for i, x in enumerate(step_bits([1 if j == c else 0 for j in range(32)], [0] * (8 * nbytes))))
            for c in range(32)]


def _apply(m, v):
    r = 0
    c = 0
    while v:
        if v & 1:
            r ^= m[c]
        v >>= 1
        c += 1
    return r


_POW = {}
_BYTE = {}
_POWM = []
MAXPOW = 13000


def powers():
    """Z^j for j in 0..MAXPOW, and what a byte followed by j zero bytes leaves"""
    if _POW:
        return
    z1 = _mat_zero(1)
    cur = [1 << i for i in range(32)]
    for j in range(MAXPOW + 1):
        t = tuple(cur)
        _POW.setdefault(t, j)
        _POWM.append(t)
        if j:
            _BYTE.setdefault(t[:8], j - 1)
        cur = [_apply(z1, x) for x in cur]


# ------------------------------------------------------------ state
class Reg:
    __slots__ = ("name", "size", "kind", "base", "cells", "owner", "ro")

    def __init__(self, name, size, kind, base=None, ro=False):
        self.name = name
        self.size = size
        self.kind = kind        # data | zero | undef
        self.base = base
        self.cells = {}
        self.owner = None
        self.ro = ro

    def copy(self, owner):
        r = Reg(self.name, self.size, self.kind, self.base, self.ro)
        r.cells = dict(self.cells)
        r.owner = owner
        return r


class Frame:
    __slots__ = ("fn", "blk", "i", "prev", "regs", "res")

    def __init__(self, fn, regs, res):
        self.fn = fn
        self.blk = None
        self.i = 0
        self.prev = None
        self.regs = regs
        self.res = res

    def copy(self):
        f = Frame(self.fn, dict(self.regs), self.res)
        f.blk, f.i, f.prev = self.blk, self.i, self.prev
        return f


class St:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.cons = Cons()
        self.eqs = ()          # linear equations over atoms assumed zero, in echelon form: (pivot mask, form)
        self.ret = None
        self.done = False
        self.written = set()
        self.trace = ()
        self.pend = None       # an edge still to be taken: target block

    def copy(self):
        s = St()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.cons = self.cons.copy()
        s.eqs = self.eqs
        s.written = set(self.written)
        s.trace = self.trace
        s.pend = self.pend
        s.ret, s.done = self.ret, self.done
        return s

    def own(self, name):
        r = self.mem[name]
        if r.owner is not self:
            r = r.copy(self)
            self.mem[name] = r
        return r

    def reduce(self, f):
        for pv, e in self.eqs:
            if f & pv:
                f ^= e
        return f

    def assume_zero(self, f):
        """False when f cannot be zero"""
        f = self.reduce(f)
        if f == 0:
            return True
        if f == 1:
            return False
        pv = 1 << (f.bit_length() - 1)
        self.eqs = tuple((p, e ^ f if e & pv else e) for p, e in self.eqs) + ((pv, f),)
        return True


class Exec:
    def __init__(self, mod, induct=False, limit=6000000, hook=None):
        self.m = mod
        self.induct = induct
        self.left = limit
        self.atoms = [("one",)]
        self.bytes = {}
        self.hook = hook          # hook(kind, ok, fn, loc, msg, detail)
        self.visited = set()
        self.ninst = 0
        self.tabs = {}
        self.names = 0
        self.be = False
        self.loops = 0
        self.lows = {}
        self.defs = {}

    # -------------------------------------------------------- atoms
    def atom(self, *what):
        self.atoms.append(what)
        return 1 << (len(self.atoms) - 1)

    def byte(self, rname, off):
        off = simp(off)
        k = (rname, off)
        v = self.bytes.get(k)
        if v is None:
            v = self.bytes[k] = [self.atom("byte", rname, off, i) for i in range(8)]
        return v

    def vec(self, name, w=32):
        return [self.atom("vec", name, i) for i in range(w)]

    # -------------------------------------------------------- memory
    def ob(self, st, kind, ok, inst, msg, detail=""):
        if self.hook:
            f = st.frames[-1]
            self.hook(kind, ok, f.fn.name, inst, msg, detail, st)

    def in_range(self, st, r, o, n, inst, what):
        if isinstance(o, int) and isinstance(r.size, int):
            ok = 0 <= o and o + n <= r.size
        else:
            ok = True if st.cons.entails_ge(num(o)) and st.cons.entails_ge(num(r.size) - num(o) - K(n)) else None
        self.ob(st, "bounds", ok, inst, "%s of %d bytes inside %s" % (what, n, r.name), "offset %r, size %r" % (o, r.size))
        return ok

    def load_bytes(self, st, r, o, n):
        """forms of n bytes starting at o, in memory order"""
        out = []
        if r.kind == "data" and not r.cells:
            for k in range(n):
                out.append(self.byte(r.name, simp(num(o) + K(k)) if not isinstance(o, int) else o + k))
            return out
        if not isinstance(o, int):
            raise Lost("symbolic offset into " + r.name)
        for k in range(n):
            p = o + k
            for back in range(8):
                c = r.cells.get(p - back)
                if c is not None and c[0] > back:
                    b = bits(c[1], 8 * c[0])
                    j = (c[0] - 1 - back) if self.be else back
                    out.append(b[8 * j:8 * j + 8])
                    break
            else:
                if r.kind == "zero":
                    out.append([0] * 8)
                elif r.kind == "data":
                    out.append(self.byte(r.name, p))
                else:
                    raise Lost("read of unset " + r.name)
        return out

    def load(self, st, p, ty, inst):
        n = self.m.size(ty)
        if not isinstance(p, Ptr):
            raise Lost("load through %r" % (p,))
        r = st.mem.get(p.r)
        if r is None:
            raise Lost("unknown region " + p.r)
        if p.tab is not None:
            return self.lookup(st, r, p, n, ty, inst)
        o = simp(p.o)
        if self.in_range(st, r, o, n, inst, "load") is False:
            raise Lost("out of range")
        al = inst.x.get("al", 1)
        if al > 1 and r.kind == "data" and r.base is not None:
            a = simp(num(o) + K(r.base)) if not isinstance(o, int) else o + r.base
            if isinstance(a, int):
                self.ob(st, "alignment", a % al == 0, inst, "load of %d bytes is aligned" % n, "address = %d mod %d" % (a % al, al))
        if ty.k == "ptr":
            c = r.cells.get(o)
            if c is None:
                raise Lost("pointer load")
            return c[1]
        c = r.cells.get(o) if isinstance(o, int) else None
        if c is not None and c[0] == n:
            return c[1]
        by = self.load_bytes(st, r, o, n)
        if self.be:
            by = by[::-1]
        return mk(8 * n, [x for b in by for x in b][:ty.a])

    def lookup(self, st, r, p, n, ty, inst):
        """load at base + stride * (index unknown): exact when the table is affine in the index"""
        idx, stride = p.tab
        if not isinstance(p.o, int):
            raise Lost("table at symbolic base")
        forms = [st.reduce(f) for f in idx.b]
        pos = [i for i, f in enumerate(forms) if f not in (0, 1)]
        cst = sum(1 << i for i, f in enumerate(forms) if f == 1)
        if len(pos) > 12:
            raise Lost("index of %d bits" % len(pos))
        key = (id(r), len(r.cells), p.o, stride, n, tuple(pos), cst)
        hit = self.tabs.get(key)
        if hit is None:
            tab = []
            for v in range(1 << len(pos)):
                i = cst
                for k, b in enumerate(pos):
                    if v >> k & 1:
                        i |= 1 << b
                o = p.o + stride * i
                if not (0 <= o and o + n <= r.size):
                    tab = None
                    bad = i
                    break
                c = r.cells.get(o)
                if c is not None and c[0] == n:
                    x = c[1]
                else:
                    by = self.load_bytes(st, r, o, n)
                    x = mk(8 * n, [y for b in (by[::-1] if self.be else by) for y in b])
                if not isinstance(x, int):
                    raise Lost("table with unknown entries")
                tab.append(x)
            if tab is None:
                hit = ("oob", bad, r)
            else:
                base = [tab[1 << k] ^ tab[0] for k in range(len(pos))]
                odd = None
                for v in range(len(tab)):
                    x = tab[0]
                    for k in range(len(pos)):
                        if v >> k & 1:
                            x ^= base[k]
                    if x != tab[v]:
                        odd = v
                        break
                hit = ("tab", tab, base, odd, r)
            self.tabs[key] = hit
        if hit[0] == "oob":
            self.ob(st, "bounds", False, inst, "table lookup inside " + r.name, "index %d reachable" % hit[1])
            raise Lost("out of range")
        self.ob(st, "bounds", True, inst, "table lookup inside " + r.name)
        _, tab, base, odd, _ = hit
        if odd is not None:
            # not affine: look at one index for which it is not, exactly
            for k, b in enumerate(pos):
                f = forms[b] ^ (1 if odd >> k & 1 else 0)
                if not st.assume_zero(f):
                    raise Lost("table not affine")
            return tab[odd]
        w = 8 * n
        out = [(tab[0] >> i) & 1 for i in range(w)]
        for k, b in enumerate(pos):
            f = forms[b]
            x = base[k]
            i = 0
            while x:
                if x & 1:
                    out[i] ^= f
                x >>= 1
                i += 1
        return mk(w, out)

    def store(self, st, p, v, ty, inst):
        n = self.m.size(ty)
        if not isinstance(p, Ptr) or p.tab is not None:
            raise Lost("store through %r" % (p,))
        self.put(st, p, n, v, inst)

    def put(self, st, p, n, v, inst):
        r = st.mem.get(p.r)
        if r is None:
            raise Lost("unknown region")
        o = simp(p.o)
        if self.in_range(st, r, o, n, inst, "store") is False:
            raise Lost("out of range")
        if r.kind == "data" or r.ro:
            self.ob(st, "effect", False, inst, "nothing but the function's own storage is written", r.name)
        if not isinstance(o, int):
            raise Lost("store at symbolic offset of " + r.name)
        r = st.own(p.r)
        for k in range(-7, n):
            c = r.cells.get(o + k)
            if c is not None and (k != 0 or c[0] != n) and o + k + c[0] > o:
                # split what is overlapped only in part
                by = self.load_bytes(st, r, o + k, c[0])
                del r.cells[o + k]
                for j, b in enumerate(by):
                    if not (o <= o + k + j < o + n):
                        r.cells[o + k + j] = (1, mk(8, b))
        r.cells[o] = (n, v)
        st.written.add((p.r, o, n))

    # -------------------------------------------------------- values
    def opnd(self, st, v, ty):
        k = v[0]
        if k == "reg":
            try:
                return st.frames[-1].regs[v[1]]
            except KeyError:
                raise Lost("value %s not known" % v[1])
        if k == "int":
            return v[1] & ((1 << ty.a) - 1)
        if k == "glob":
            return self.glob(st, v[1])
        if k == "null":
            return 0
        if k == "gep":
            return self.gep(st, v[1], [(t, self.opnd(st, x, t)) for t, x in v[2]])
        if k == "zero":
            return 0
        raise Lost("operand %r" % (v,))

    def glob(self, st, name):
        k = "@" + name
        if k not in st.mem:
            g = self.m.globals.get(name)
            if g is None:
                raise Lost("global " + name)
            r = Reg(k, self.m.size(g.ty), "zero")
            r.owner = st
            r.ro = bool(g.const)
            if g.init is not None:
                self.init(r, 0, g.ty, g.init)
            st.mem[k] = r
        return Ptr(k, 0)

    def init(self, r, o, ty, v):
        if v[0] == "zero" or v[0] == "undef":
            return
        if v[0] == "int":
            r.cells[o] = (self.m.size(ty), v[1] & ((1 << ty.a) - 1))
        elif v[0] == "str":
            for i, b in enumerate(v[1]):
                r.cells[o + i] = (1, b)
        elif v[0] == "agg":
            t = self.m.resolve(ty)
            if t.k == "arr":
                s = self.m.size(t.b)
                for i, (et, ev) in enumerate(v[1]):
                    self.init(r, o + i * s, et, ev)
            else:
                offs = self.m.layout(t)[0]
                for i, (et, ev) in enumerate(v[1]):
                    self.init(r, o + offs[i], et, ev)
        else:
            raise Lost("initialiser")

    def gep(self, st, bt, idx):
        base = idx[0][1]
        if not isinstance(base, Ptr):
            raise Lost("gep of %r" % (base,))
        off = base.o
        tab = base.tab
        ty = bt
        for n, (it, iv) in enumerate(idx[1:]):
            if n:
                t = self.m.resolve(ty)
                if t.k == "arr":
                    ty = t.b
                    sz = self.m.size(ty)
                else:
                    off = simp(num(off) + K(self.m.layout(t)[0][iv])) if not isinstance(off, int) else off + self.m.layout(t)[0][iv]
                    ty = t.a[iv]
                    continue
            else:
                sz = self.m.size(ty)
            if isinstance(iv, int):
                if iv >> (it.a - 1):
                    iv -= 1 << it.a
                d = iv * sz
                off = off + d if isinstance(off, int) else simp(off + K(d))
            elif isinstance(iv, Lin):
                off = simp(num(off) + iv.scale(sz))
            elif isinstance(iv, BV):
                if tab is not None:
                    raise Lost("two unknown indices")
                if it.a < 64 and iv.b[-1]:
                    raise Lost("index may be negative")
                tab = (iv, sz)
            else:
                raise Lost("index")
        return Ptr(base.r, off, tab)

    # -------------------------------------------------------- arithmetic
    def low(self, st, v, k):
        """v = 2^k q + r: symbols for q and r, memoised"""
        v = st.cons.norm(v) if False else v
        key = (v, k)
        h = self.lows.get(key)
        if h is None:
            q = fresh("q", None)
            r = fresh("r", 0, (1 << k) - 1)
            h = self.lows[key] = (q, r)
        q, r = h
        st.cons.add_eq(v - q.scale(1 << k) - r)
        if st.cons.entails_ge(v):
            st.cons.add_ge(q)
        return q, r

    def nonneg(self, st, v, w):
        """the w-bit value of the integer v: forks on wrap"""
        v = simp(v)
        if isinstance(v, int):
            return [(st, v & ((1 << w) - 1))]
        if st.cons.entails_ge(v):
            return [(st, v)]
        out = []
        a = st.copy()
        if a.cons.add_ge(v) is not False and not a.cons.bot:
            out.append((a, v))
        b = st.copy()
        if b.cons.add_ge(-v - K(1)) is not False and not b.cons.bot:
            out.append((b, v + K(1 << w)))
        return out

    def binop(self, st, op, a, b, w):
        """-> value, or a list of (state, value)"""
        M = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            if op == "xor":
                return a ^ b
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "add":
                return (a + b) & M
            if op == "sub":
                return (a - b) & M
            if op == "mul":
                return (a * b) & M
            if op == "shl":
                if b >= w:
                    raise Lost("shift")
                return (a << b) & M
            if op == "lshr":
                if b >= w:
                    raise Lost("shift")
                return a >> b
            if op == "ashr":
                if b >= w:
                    raise Lost("shift")
                s = a - (1 << w) if a >> (w - 1) else a
                return (s >> b) & M
            if op in ("udiv", "urem"):
                if b == 0:
                    raise Lost("division by zero")
                return a // b if op == "udiv" else a % b
            if op in ("sdiv", "srem"):
                if b == 0:
                    raise Lost("division by zero")
                x = a - (1 << w) if a >> (w - 1) else a
                y = b - (1 << w) if b >> (w - 1) else b
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return (q if op == "sdiv" else x - q * y) & M
            raise Lost(op)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            raise Lost("arithmetic on a pointer")
        if isinstance(a, Lin) or isinstance(b, Lin):
            return self.numop(st, op, a, b, w)
        if op == "xor":
            return mk(w, [x ^ y for x, y in zip(bits(a, w), bits(b, w))])
        if op in ("shl", "lshr", "ashr"):
            if not isinstance(b, int) or b >= w:
                raise Lost("shift by an unknown amount")
            x = bits(a, w)
            if op == "shl":
                return mk(w, [0] * b + x[:w - b])
            if op == "lshr":
                return mk(w, x[b:] + [0] * b)
            return mk(w, x[b:] + [x[-1]] * b)
        if op in ("and", "or"):
            out = []
            for x, y in zip(bits(a, w), bits(b, w)):
                x, y = st.reduce(x), st.reduce(y)
                if op == "and":
                    if x == 0 or y == 0:
                        out.append(0)
                    elif x == 1:
                        out.append(y)
                    elif y == 1 or x == y:
                        out.append(x)
                    elif x == y ^ 1:
                        out.append(0)
                    else:
                        raise Lost("and of two unknown bits")
                else:
                    if x == 1 or y == 1:
                        out.append(1)
                    elif x == 0:
                        out.append(y)
                    elif y == 0 or x == y:
                        out.append(x)
                    elif x == y ^ 1:
                        out.append(1)
                    else:
                        raise Lost("or of two unknown bits")
            return mk(w, out)
        if op == "add":
            x, y = bits(a, w), bits(b, w)
            if all(st.reduce(p) == 0 or st.reduce(q) == 0 for p, q in zip(x, y)):
                return mk(w, [p ^ q for p, q in zip(x, y)])
            raise Lost("carry")
        if op == "sub":
            if a == 0:
                # 0 - bit: a mask
                x = bits(b, w)
                if all(f == 0 for f in x[1:]):
                    return mk(w, [x[0]] * w)
            x, y = bits(a, w), bits(b, w)
            if all(st.reduce(q) == 0 or st.reduce(p) == 1 for p, q in zip(x, y)):
                return mk(w, [p ^ q for p, q in zip(x, y)])
            raise Lost("borrow")
        if op == "mul":
            if isinstance(b, BV):
                a, b = b, a
            if isinstance(b, int):
                if b & (b - 1) == 0:
                    return self.binop(st, "shl", a, b.bit_length() - 1, w) if b else 0
                x = a.b
                if all(f == 0 for f in x[1:]):
                    return mk(w, [x[0] if b >> i & 1 else 0 for i in range(w)])
            raise Lost("product")
        if op in ("udiv", "urem") and isinstance(b, int) and b and b & (b - 1) == 0:
            if op == "udiv":
                return self.binop(st, "lshr", a, b.bit_length() - 1, w)
            return self.binop(st, "and", a, b - 1, w)
        raise Lost(op)

    def numop(self, st, op, a, b, w):
        if op == "add":
            x = num(a) + num(b)
            for c in (a, b):
                if isinstance(c, int) and c >> (w - 1):
                    x = x - K(1 << w)
            return self.nonneg(st, x, w)
        if op == "sub":
            return self.nonneg(st, num(a) - num(b), w)
        if op == "mul":
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                return self.nonneg(st, num(a).scale(b), w)
        if isinstance(a, int) and op in ("and",):
            a, b = b, a
        if isinstance(b, int) and isinstance(a, Lin):
            if op == "shl":
                return self.nonneg(st, a.scale(1 << b), w)
            k = None
            if op == "lshr":
                k, part = b, 0
            elif op in ("udiv", "urem") and b and b & (b - 1) == 0:
                k, part = b.bit_length() - 1, 0 if op == "udiv" else 1
            elif op == "and" and b and b & (b + 1) == 0:
                k, part = b.bit_length(), 1
            elif op == "and":
                inv = b ^ ((1 << w) - 1)
                if inv and inv & (inv + 1) == 0:
                    q, r = self.low(st, a, inv.bit_length())
                    return simp(a - r)
            if k is not None:
                if k == 0:
                    return a if part == 0 else 0
                q, r = self.low(st, a, k)
                return simp(st.cons.norm(q if part == 0 else r))
            if op == "xor" and b == 0 or op == "or" and b == 0:
                return a
        raise Lost("%s of numbers" % op, a if isinstance(a, Lin) else b)

    def compare(self, st, pred, a, b, w):
        """-> [(state, 0/1)]"""
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r != b.r or a.tab or b.tab:
                raise Lost("comparison of pointers")
            a, b = a.o, b.o
            w = 64
            pred = {"slt": "ult", "sgt": "ugt", "sle": "ule", "sge": "uge"}.get(pred, pred)
            if isinstance(a, int) and isinstance(b, int):
                a += 1 << 40
                b += 1 << 40
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if pred in ("eq", "ne") and (a == 0 or b == 0):
                return [(st, 1 if pred == "ne" else 0)]
            raise Lost("comparison with a pointer")
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == "s":
                a = a - (1 << w) if a >> (w - 1) else a
                b = b - (1 << w) if b >> (w - 1) else b
            r = {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[pred.lstrip("us") if pred not in ("eq", "ne") else pred]
            return [(st, int(r))]
        if isinstance(a, Lin) or isinstance(b, Lin):
            x, y = num(a), num(b)
            if pred[0] == "s":
                for v in (a, b):
                    if isinstance(v, int) and v >> (w - 1):
                        x, y = (x - K(1 << w), y) if v is a else (x, y - K(1 << w))
                # a number is below 2^(w-1) here only if known to be
                for v in (x, y):
                    if not st.cons.entails_ge(K((1 << (w - 1)) - 1) - v):
                        raise Lost("signed comparison")
            d = x - y
            t = {"eq": ("eq", d), "ne": ("ne", d), "ult": ("ge", -d - K(1)), "ule": ("ge", -d), "ugt": ("ge", d - K(1)), "uge": ("ge", d),
                 "slt": ("ge", -d - K(1)), "sle": ("ge", -d), "sgt": ("ge", d - K(1)), "sge": ("ge", d)}[pred]
            neg = {"eq": "ne", "ne": "eq"}.get(t[0])
            out = []
            s = st.copy()
            if self.assume(s, t[0], t[1]):
                out.append((s, 1))
            s = st.copy()
            if self.assume(s, neg, t[1]) if neg else self.assume(s, "ge", -t[1] - K(1)):
                out.append((s, 0))
            return out
        # data
        fa, fb = [st.reduce(f) for f in bits(a, w)], [st.reduce(f) for f in bits(b, w)]
        if pred in ("eq", "ne"):
            d = [x ^ y for x, y in zip(fa, fb) if x != y]
            if any(x == 1 for x in d):
                return [(st, int(pred == "ne"))]
            if not d:
                return [(st, int(pred == "eq"))]
            s = st.copy()
            out = []
            if all(s.assume_zero(x) for x in d):
                out.append((s, int(pred == "eq")))
            if len(d) == 1:
                s = st.copy()
                if s.assume_zero(d[0] ^ 1):
                    out.append((s, int(pred == "ne")))
            else:
                # at least one bit set: split on the lowest one that is
                for k in range(len(d)):
                    s = st.copy()
                    if all(s.assume_zero(x) for x in d[:k]) and s.assume_zero(d[k] ^ 1):
                        out.append((s, int(pred == "ne")))
            return out
        # order against a constant: decided from the leading bits
        if isinstance(b, int) or isinstance(a, int):
            flip = 0
            if isinstance(a, int):
                fa, fb = fb, fa
                b = a
                pred = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}[pred]
            if pred[0] == "s":
                if pred == "slt" and b == 0:
                    return self.compare(st, "ne", mk(1, [fa[-1]]), 0, 1)
                if pred == "sge" and b == 0:
                    return self.compare(st, "eq", mk(1, [fa[-1]]), 0, 1)
                if pred == "sgt" and b == (1 << w) - 1:
                    return self.compare(st, "eq", mk(1, [fa[-1]]), 0, 1)
                raise Lost("signed order of data")
            hi = sum(1 << i for i, f in enumerate(fa) if f)
            lo = sum(1 << i for i, f in enumerate(fa) if f == 1)
            t = {"ult": (hi < b, lo >= b), "ule": (hi <= b, lo > b), "ugt": (lo > b, hi <= b), "uge": (lo >= b, hi < b)}[pred]
            if t[0]:
                return [(st, 1)]
            if t[1]:
                return [(st, 0)]
            k = {"ult": b, "ule": b + 1, "ugt": b + 1, "uge": b}[pred]
            if k and k & (k - 1) == 0:
                up = mk(w, fa[k.bit_length() - 1:] + [0] * (k.bit_length() - 1))
                return self.compare(st, "eq" if pred in ("ult", "ule") else "ne", up, 0, w)
        raise Lost("order of data")

    def assume(self, st, kind, e):
        if kind == "ge":
            st.cons.add_ge(e)
        elif kind == "eq":
            st.cons.add_eq(e)
        else:
            st.cons.add_ne(e)
        return not st.cons.bot

    # -------------------------------------------------------- control
    def call(self, st, fname, args, stop=None):
        """states at return of fname, each with .ret"""
        f = self.m.funcs[fname]
        regs = {}
        for (t, n, by), v in zip(f.params, args):
            regs[n] = v
        fr = Frame(f, regs, None)
        base = len(st.frames)
        st.frames.append(fr)
        st.done = False
        self.enter_fn(st)
        out = []
        for s in self.explore([st], base + 1, None):
            s.done = False
            out.append(s)
        return out

    def enter_fn(self, st):
        fr = st.frames[-1]
        fr.fn.analyse()
        self.visited.add(fr.fn.name)
        fr.blk = fr.fn.order[0]
        fr.i = 0
        fr.prev = None
        if len(st.frames) > 40:
            raise Lost("call depth")

    def explore(self, todo, depth, loop):
        """run the states; with loop=(header, body) stop at a jump of frame `depth` to the header or out of the body.
        Yields finished states (loop is None), or (kind, state)."""
        todo = list(todo)
        while todo:
            st = todo.pop()
            while True:
                if st.pend is not None:
                    to, st.pend = st.pend, None
                    r = self.jump(st, to, depth, loop)
                else:
                    r = self.block(st, depth, loop)
                if r is None:
                    break
                if r[0] == "next":
                    continue
                if r[0] == "fork":
                    todo.extend(r[1])
                    break
                if r[0] == "done":
                    yield st if loop is None else ("exit", st)
                    break
                yield r[0], st
                break

    def jump(self, st, to, depth, loop):
        """take the edge to block `to`; phis are evaluated here"""
        fr = st.frames[-1]
        src = fr.blk
        b = fr.fn.blocks[to]
        at = loop is not None and len(st.frames) == depth
        inside = at and src in loop[1]
        if inside and to not in loop[1]:
            st.pend = to
            return ("exit",)
        vals = {}
        for ph in b.phis:
            vals[ph.res] = self.opnd(st, ph.x["inc"][src], ph.ty)
        fr.prev = src
        fr.blk = to
        fr.i = 0
        if inside and to == loop[0]:
            fr.regs.update(vals)
            return ("back",)
        if self.induct and to in fr.fn.loops and src not in fr.fn.loops[to]:
            return ("fork", self.close(st, to, vals))
        fr.regs.update(vals)
        return ("next",)

    # the loop, closed
    def close(self, st, head, v0):
        fr = st.frames[-1]
        body = fr.fn.loops[head]
        depth = len(st.frames)
        self.loops += 1
        phis = fr.fn.blocks[head].phis
        if self.counted(fr.fn, head, body, v0):
            s = self.short(st, depth, head, body, v0)
            if s is not None:
                return s
        data = {}
        for ph in phis:
            v = v0[ph.res]
            if isinstance(v, BV):
                data[ph.res] = ph.ty.a
        # what one iteration does, from an arbitrary one
        inv = []
        rounds = 0
        for attempt in range(8):
            h = st.copy()
            mark = len(lin.SYMS)
            head_v = {}
            syms = {}
            for ph in phis:
                v = v0[ph.res]
                if ph.res in data:
                    self.names += 1
                    head_v[ph.res] = place(self.vec("h%d.%s" % (self.names, ph.res)), ph.ty.a, v)
                elif isinstance(v, Ptr):
                    if v.tab is not None:
                        raise Lost("loop over a table pointer")
                    s = fresh("o_" + ph.res)
                    syms[ph.res] = s
                    head_v[ph.res] = Ptr(v.r, s)
                elif isinstance(v, (int, Lin)):
                    s = fresh("n_" + ph.res, 0)
                    h.cons.add_ge(K((1 << ph.ty.a) - 1) - s)
                    syms[ph.res] = s
                    head_v[ph.res] = s
                else:
                    raise Lost("loop value %r" % (v,))
            for f in inv:
                h.cons.add_ge(f(lambda n: num(head_v[n].o if isinstance(head_v[n], Ptr) else head_v[n])))
            h.frames[-1].regs.update(head_v)
            h.written = set()
            try:
                hook, self.hook = self.hook, None
                try:
                    backs = [s for k, s in self.explore([h], depth, (head, body)) if k == "back"]
                finally:
                    self.hook = hook
                delta = {}
                flip = None
                for s in backs:
                    for ph in phis:
                        nv = s.frames[-1].regs[ph.res]
                        if ph.res in data:
                            if isinstance(nv, Ptr):
                                raise Lost("data turned pointer")
                            continue
                        if isinstance(nv, BV):
                            flip = ph.res
                            break
                        old = head_v[ph.res]
                        if isinstance(old, Ptr):
                            if not isinstance(nv, Ptr) or nv.r != old.r or nv.tab is not None:
                                raise Lost("pointer changes region")
                            d = num(nv.o) - num(old.o)
                        else:
                            d = num(nv) - num(old)
                        if not d.is_const():
                            d = s.cons.norm(d)
                        if not d.is_const():
                            lo, hi = s.cons.bounds(d)
                            if lo is None or lo != hi:
                                raise Lost("step of %s is not constant" % ph.res)
                            d = K(lo)
                        w = ph.ty.a if ph.ty.k == "int" else 64
                        d = (d.c + (1 << (w - 1))) % (1 << w) - (1 << (w - 1))
                        if delta.setdefault(ph.res, d) != d:
                            raise Lost("two steps of " + ph.res)
                    if flip:
                        break
                if flip is None:
                    new = self.invariants(st, v0, syms, delta, backs, mark, inv) if rounds < 2 else []
                    if not new:
                        break
                    inv += new
                    rounds += 1
                    continue
            except Lost as e:
                flip = None
                if e.sym is not None:
                    for n, s in syms.items():
                        if isinstance(v0[n], int) and any(x in e.sym.syms() for x in s.syms()):
                            flip = n
                            break
                if flip is None:
                    raise
            data[flip] = {p.res: p.ty.a for p in phis}[flip]
        else:
            raise Lost("loop not understood")
        wr = set()
        for s in backs:
            wr |= s.written
        out = []
        # left without coming back
        a = st.copy()
        a.frames[-1].regs.update(v0)
        if not self.run_loop(a, depth, head, body, out) or not backs:
            return out
        # after t+1 iterations: the t-th from its closed form, then the rest
        t = fresh("t", 0)
        g = st.copy()
        for rn, o, n in wr:
            if rn in g.mem:
                r = g.own(rn)
                r.cells.pop(o, None)
                r.kind = "undef" if r.kind != "zero" else "lost"
        for ph in phis:
            v = v0[ph.res]
            if ph.res in data:
                continue
            d = delta.get(ph.res, 0)
            if isinstance(v, Ptr):
                g.frames[-1].regs[ph.res] = Ptr(v.r, simp(num(v.o) + t.scale(d)))
            else:
                x = num(v) + t.scale(d)
                g.frames[-1].regs[ph.res] = simp(x)
                if d:
                    g.cons.add_ge(x)
                    g.cons.add_ge(K((1 << ph.ty.a) - 1) - x)
        gr = g.frames[-1].regs
        for f in inv:
            g.cons.add_ge(f(lambda n: num(gr[n].o if isinstance(gr[n], Ptr) else gr[n])))
        if g.cons.bot:
            return out
        hv = {}
        for ph in phis:
            if ph.res in data:
                self.names += 1
                w = ph.ty.a
                nm = "r%d.%s" % (self.names, ph.res)
                f = self.vec(nm)
                hv[ph.res] = f
                g.frames[-1].regs[ph.res] = place(f, w, v0[ph.res])
                unplace(bits(v0[ph.res], w), w, v0[ph.res])
        g2 = g.copy()
        hook, self.hook = self.hook, None
        try:
            backs = [s for k, s in self.explore([g2], depth, (head, body)) if k == "back"]
        finally:
            self.hook = hook
        if not backs:
            return out
        # data: R' = Z^k R + fold(p, p+k), the same on every way round
        law = {}
        for s in backs:
            for n, f in hv.items():
                nv = unplace(bits(s.frames[-1].regs[n], data[n]), data[n], v0[n])
                me = self.atoms[f[0].bit_length() - 1][1]
                sm = self.stream(s.cons, nv, {})
                own = [e for e, k, x in sm.t if k == "vec" and x == ((me, 0),)]
                rest = [(e, k, x) for e, k, x in sm.t if k != "vec" or x != ((me, 0),)]
                if len(own) != 1 or not own[0].is_const():
                    raise Lost("register %s is not carried on: %r" % (n, sm))
                k = own[0].c
                if k == 0 and not rest:
                    r = (0, None, None)
                elif len(rest) == 1 and rest[0][1] == "fold" and s.cons.entails_eq(rest[0][0]):
                    rn, p, q = rest[0][2]
                    if not s.cons.entails_eq(q - p - K(k)):
                        raise Lost("register advanced by %d over other bytes" % k)
                    if p.coef(t.syms()[0]) != k:
                        raise Lost("register does not follow the bytes")
                    r = (k, rn, p)
                else:
                    raise Lost("register %s: %r" % (n, sm))
                if law.setdefault(n, r) != r:
                    raise Lost("two laws")
        ts = t.syms()[0]
        for n in hv:
            k, rn, p = law[n]
            x0 = self.stream(st.cons, unplace(bits(v0[n], data[n]), data[n], v0[n]), {})
            at = self.atoms[hv[n][0].bit_length() - 1][1]
            if k == 0:
                d = x0
            else:
                p0 = p.subst({ts: K(0)})
                d = Stream([(e + t.scale(k), kk, x) for e, kk, x in x0.t] + [(K(0), "fold", (rn, p0, p0 + t.scale(k)))])
            self.defs[at] = d
        # run iteration t for real, then leave or drop
        self.run_loop(g, depth, head, body, out, again=True)
        return out

    def counted(self, fn, head, body, v0):
        """an exit compares a variable that starts at a small constant with a small constant"""
        defs = {i.res: i for l in body for i in fn.blocks[l].insts if i.res}

        def root(v, n=0):
            if v[0] != "reg" or n > 8:
                return None
            if v[1] in v0:
                return v[1]
            i = defs.get(v[1])
            if i is None:
                return None
            if i.op in ("zext", "sext", "trunc"):
                return root(i.ops[0], n + 1)
            if i.op in ("add", "sub", "lshr") and i.ops[1][0] == "int":
                return root(i.ops[0], n + 1)
            return None
        for l in body:
            t = fn.blocks[l].insts[-1]
            if t.op != "br" or t.x["c"] is None or (t.x["t"] in body and t.x["f"] in body):
                continue
            c = defs.get(t.x["c"][1]) if t.x["c"][0] == "reg" else None
            if c is None or c.op != "icmp":
                continue
            a, b = c.ops
            if a[0] == "int":
                a, b = b, a
            if b[0] != "int" or not -1 <= b[1] <= 64:
                continue
            p = root(a)
            if p is not None and isinstance(v0[p], int) and v0[p] <= 64:
                return True
        return False

    def short(self, st, depth, head, body, v0):
        """a loop that runs a constant, small number of times whatever the inputs: followed"""
        s = st.copy()
        s.frames[-1].regs.update(v0)
        hook, self.hook = self.hook, None
        for rehearsal in (True, False):
            if not rehearsal:
                s = st.copy()
                s.frames[-1].regs.update(v0)
                self.hook = hook
            for i in range(36):
                try:
                    r = list(self.explore([s], depth, (head, body)))
                except Lost:
                    self.hook = hook
                    return None
                if len(r) != 1:
                    break
                s = r[0][1]
                if r[0][0] == "exit":
                    break
            else:
                break
            if len(r) != 1:
                break
        else:
            return [s]
        self.hook = hook
        return None

    def invariants(self, st, v0, syms, delta, backs, mark, have):
        """inequalities that the way back establishes, that hold on entry, and that every way back establishes"""
        ids = {v.syms()[0]: n for n, v in syms.items()}
        out = []
        seen = set()
        for b in backs:
            for t, c in b.cons.ine:
                e = Lin(t, c)
                if (t, c) in st.cons.ine or not any(s in ids for s in e.syms()):
                    continue
                if any(s >= mark and s not in ids for s in e.syms()):
                    continue

                def f(val, e=e):
                    return e.subst({s: val(n) - K(delta[n]) for s, n in ids.items() if n in delta})
                new = f(lambda n: syms[n])
                if new in seen or any(h(lambda n: syms[n]) == new for h in have):
                    continue
                seen.add(new)
                if not st.cons.entails_ge(f(lambda n: num(v0[n].o if isinstance(v0[n], Ptr) else v0[n]))):
                    continue
                if all(b2.cons.entails_ge(f(lambda n: num(b2.frames[-1].regs[n].o if isinstance(v0[n], Ptr) else b2.frames[-1].regs[n])))
                       for b2 in backs):
                    out.append(f)
        return out

    def sup(self, x):
        out = []
        i = 0
        while x:
            if x & 1:
                out.append(self.atoms[i])
            x >>= 1
            i += 1
        return out

    def run_loop(self, st, depth, head, body, out, again=False):
        backs = []
        for k, s in self.explore([st], depth, (head, body)):
            if k == "exit":
                if not again:
                    out.append(s)
            else:
                backs.append(s)
        if again:
            for s in backs:
                for k, x in self.explore([s], depth, (head, body)):
                    if k == "exit":
                        out.append(x)
        return backs

    # streams: sums of Z^e (vector of the initial register) and Z^e fold(bytes a..b)
    def stream(self, cons, forms, own):
        powers()
        groups = {}
        const = []
        for i, f in enumerate(forms):
            c = f & 1
            const.append(c)
            f >>= 1
            j = 1
            while f:
                low = (f & -f).bit_length()
                j0 = j + low - 1
                a = self.atoms[j0]
                groups.setdefault(a[:-1], {}).setdefault(a[-1], 0)
                groups[a[:-1]][a[-1]] |= 1 << i
                f >>= low
                j = j0 + 1
        terms = []
        cm = sum(c << i for i, c in enumerate(const))
        if cm:
            terms.append((K(0), "vec", (("const", cm),)))
        for g, cols in groups.items():
            if g[0] == "vec":
                m = tuple(cols.get(c, 0) for c in range(32))
                j = _POW.get(m)
                if j is None:
                    raise Lost("register combined by an unknown operator")
                if g[1] in own:
                    sub = own[g[1]]
                elif g[1] in self.defs:
                    sub = self.defs[g[1]]
                else:
                    sub = Stream([(K(0), "vec", ((g[1], 0),))])
                for e, k, x in sub.t:
                    terms.append((e + K(j), k, x))
            else:
                m = tuple(cols.get(c, 0) for c in range(8))
                j = _BYTE.get(m)
                if j is None:
                    raise Lost("byte combined by an unknown operator")
                o = num(g[2])
                terms.append((K(j), "fold", (g[1], o, o + K(1))))
        return Stream(self.merge(cons, terms))

    def merge(self, c, terms):
        """join adjacent folds, drop empty ones, add vectors with the same exponent"""
        ts = []
        for e, k, x in terms:
            if k == "fold" and c.entails_eq(x[2] - x[1]):
                continue
            lo, hi = (e.c, e.c) if e.is_const() else c.bounds(e)
            if lo is not None and lo == hi:
                e = K(lo)
            ts.append((e, k, x))
        # const vectors may be moved by Z
        ch = True
        while ch:
            ch = False
            for i in range(len(ts)):
                for j in range(len(ts)):
                    if i == j:
                        continue
                    e1, k1, x1 = ts[i]
                    e2, k2, x2 = ts[j]
                    if k1 == k2 == "fold" and x1[0] == x2[0] and c.entails_eq(x1[2] - x2[1]) and \
                            c.entails_eq(e1 - e2 - (x2[2] - x2[1])):
                        n = (e2, "fold", (x1[0], x1[1], x2[2]))
                    elif k1 == k2 == "vec" and x1[0][0] != "const" and x2[0][0] != "const" and c.entails_eq(e1 - e2):
                        n = (e1, "vec", tuple(sorted(set(x1) ^ set(x2))))
                    elif k1 == k2 == "vec" and x1[0][0] == "const" and x2[0][0] == "const":
                        lo, hi = c.bounds(e1 - e2)
                        if lo is None or lo != hi or not 0 <= lo <= MAXPOW:
                            continue
                        m = _apply(_POWM[lo], x1[0][1]) ^ x2[0][1]
                        n = (e2, "vec", (("const", m),) if m else ())
                    else:
                        continue
                    ts = [t for q, t in enumerate(ts) if q not in (i, j)]
                    if n[1] == "fold" or n[2]:
                        ts.append(n)
                    ch = True
                    break
                if ch:
                    break
        return ts

    # -------------------------------------------------------- instructions
    def block(self, st, depth, loop):
        """runs until the end of the block (or a fork)"""
        fr = st.frames[-1]
        insts = fr.fn.blocks[fr.blk].insts
        while True:
            ins = insts[fr.i]
            self.left -= 1
            self.ninst += 1
            if self.left < 0:
                raise Lost("too many steps")
            op = ins.op
            v = None
            if op == "br":
                c = ins.x["c"]
                if c is None:
                    return self.jump(st, ins.x["t"], depth, loop)
                from .ir import I
                cv = self.opnd(st, c, I(1))
                if isinstance(cv, int):
                    return self.jump(st, ins.x["t"] if cv else ins.x["f"], depth, loop)
                return self.split(st, cv, lambda s, x: self.jump(s, ins.x["t"] if x else ins.x["f"], depth, loop), c)
            elif op == "switch":
                cv = self.opnd(st, ins.ops[0], ins.ty)
                if isinstance(cv, int):
                    for k, l in ins.x["cases"]:
                        if k & ((1 << ins.ty.a) - 1) == cv:
                            return self.jump(st, l, depth, loop)
                    return self.jump(st, ins.x["d"], depth, loop)
                raise Lost("switch on an unknown value")
            elif op == "ret":
                rv = self.opnd(st, ins.ops[0], ins.ty) if ins.ops else None
                st.frames.pop()
                if len(st.frames) < depth:
                    st.ret = rv
                    if loop is None:
                        return ("done",)
                    # returned out of the loop's function
                    self.resume(st, fr, rv)
                    return ("done",)
                self.resume(st, fr, rv)
                fr = st.frames[-1]
                insts = fr.fn.blocks[fr.blk].insts
                continue
            elif op == "unreachable":
                return None
            elif op == "call":
                r = self.docall(st, ins)
                if r is not None and r[0] == "enter":
                    fr = st.frames[-1]
                    insts = fr.fn.blocks[fr.blk].insts
                    continue
                v = r[1] if r else None
            else:
                v = self.inst(st, ins)
            if isinstance(v, list):
                for s, x in v:
                    s.frames[-1].regs[ins.res] = x
                    s.frames[-1].i += 1
                if len(v) == 1 and v[0][0] is st:
                    continue
                return ("fork", [s for s, x in v])
            if ins.res is not None:
                fr.regs[ins.res] = v
            fr.i += 1

    def resume(self, st, fr, rv):
        if st.frames:
            if fr.res is not None:
                st.frames[-1].regs[fr.res] = rv
            st.frames[-1].i += 1

    def split(self, st, cv, go, c):
        """branch on an unknown bit"""
        f = st.reduce(bits(cv, 1)[0])
        if f in (0, 1):
            return go(st, f)
        out = []
        for x in (0, 1):
            s = st.copy()
            if s.assume_zero(f ^ x):
                s.frames[-1].regs[c[1]] = x
                out.append(s)
        return ("fork", out)      # each takes the branch again, now decided

    def inst(self, st, ins):
        op = ins.op
        if op == "load":
            return self.load(st, self.opnd(st, ins.ops[0], None), ins.ty, ins)
        if op == "store":
            self.store(st, self.opnd(st, ins.ops[1], None), self.opnd(st, ins.ops[0], ins.ty), ins.ty, ins)
            return None
        if op == "getelementptr":
            return self.gep(st, ins.x["bt"], [(t, self.opnd(st, x, t)) for t, x in ins.x["idx"]])
        if op == "icmp":
            w = ins.ty.a if ins.ty.k == "int" else 64
            r = self.compare(st, ins.x["pred"], self.opnd(st, ins.ops[0], ins.ty), self.opnd(st, ins.ops[1], ins.ty), w)
            if len(r) == 1 and r[0][0] is st:
                return r[0][1]
            return r
        if op == "select":
            from .ir import I
            c = self.opnd(st, ins.ops[0], I(1))
            a, b = ins.ops[1], ins.ops[2]
            if isinstance(c, int):
                return self.opnd(st, a if c else b, ins.ty)
            x, y = self.opnd(st, a, ins.ty), self.opnd(st, b, ins.ty)
            f = st.reduce(c.b[0])
            if ins.ty.k == "int":
                w = ins.ty.a
                d = [p ^ q for p, q in zip(bits(x, w), bits(y, w))]
                if all(z in (0, 1) for z in d):
                    return mk(w, [q ^ (f if z else 0) for q, z in zip(bits(y, w), d)])
            out = []
            for v in (0, 1):
                s = st.copy()
                if s.assume_zero(f ^ v):
                    out.append((s, x if v else y))
            return out
        if op in ("zext", "sext", "trunc"):
            v = self.opnd(st, ins.ops[0], ins.x["from"])
            w0, w = ins.x["from"].a, ins.ty.a
            if isinstance(v, int):
                if op == "sext" and v >> (w0 - 1):
                    v |= ((1 << w) - 1) ^ ((1 << w0) - 1)
                return v & ((1 << w) - 1)
            if isinstance(v, Lin):
                if op == "zext":
                    return v
                if op == "sext" and st.cons.entails_ge(K((1 << (w0 - 1)) - 1) - v):
                    return v
                if op == "trunc" and st.cons.entails_ge(v) and st.cons.entails_ge(K((1 << w) - 1) - v):
                    return v
                if op == "trunc":
                    q, r = self.low(st, v, w)
                    return simp(st.cons.norm(r))
                raise Lost(op, v)
            b = bits(v, w0)
            if op == "trunc":
                return mk(w, b[:w])
            return mk(w, b + [0 if op == "zext" else b[-1]] * (w - w0))
        if op == "ptrtoint":
            p = self.opnd(st, ins.ops[0], None)
            if isinstance(p, int):
                return p
            if p.tab is not None:
                raise Lost("address of a table entry")
            r = st.mem[p.r]
            if r.base is None:
                r.base = fresh("addr_" + p.r, 4096)
            b = r.base if isinstance(r.base, Lin) else K(r.base)
            return simp(num(p.o) + b)
        if op == "inttoptr":
            v = self.opnd(st, ins.ops[0], ins.x["from"])
            # back into the region it came from
            for n, r in st.mem.items():
                if isinstance(r.base, int) and isinstance(v, int) and isinstance(r.size, int) and r.base <= v <= r.base + r.size + 16:
                    return Ptr(n, v - r.base)
                if isinstance(r.base, Lin) and isinstance(v, Lin):
                    d = v - r.base
                    if not any(s in d.syms() for s in r.base.syms()):
                        return Ptr(n, simp(d))
            raise Lost("inttoptr")
        if op == "bitcast" or op == "freeze":
            return self.opnd(st, ins.ops[0], ins.ty)
        if op == "alloca":
            self.names += 1
            n = "%s.%s.%d" % (st.frames[-1].fn.name, ins.res, len(st.frames))
            r = Reg(n, self.m.size(ins.ty), "undef")
            r.owner = st
            st.mem[n] = r
            return Ptr(n, 0)
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            return self.binop(st, op, self.opnd(st, ins.ops[0], ins.ty), self.opnd(st, ins.ops[1], ins.ty), ins.ty.a)
        raise Lost("instruction " + op)

    def docall(self, st, ins):
        cal = ins.x["callee"]
        if cal[0] == "asm":
            return self.asm(st, ins)
        if cal[0] != "glob":
            raise Lost("indirect call")
        name = cal[1]
        args = ins.x["args"]
        if name.startswith("llvm.dbg.") or name.startswith("llvm.lifetime."):
            return ("v", None)
        if name in self.m.funcs and self.m.funcs[name].blocks:
            f = self.m.funcs[name]
            regs = {}
            for (t, n, by), (at, av, _) in zip(f.params, args):
                regs[n] = self.opnd(st, av, at)
            st.frames.append(Frame(f, regs, ins.res))
            self.enter_fn(st)
            return ("enter",)
        a = [self.opnd(st, av, at) if at.k != "metadata" else None for at, av, _ in args]
        if name.startswith("llvm.x86.sse42.crc32."):
            n = int(name.rsplit(".", 1)[1])
            reg = bits(a[0], 64 if ins.ty.a == 64 else 32)[:32]
            r = step_bits(reg, bits(a[1], n))
            return ("v", mk(ins.ty.a, r + [0] * (ins.ty.a - 32)))
        if name.startswith("llvm.bswap."):
            w = ins.ty.a
            b = bits(a[0], w)
            return ("v", mk(w, [x for k in range(w // 8 - 1, -1, -1) for x in b[8 * k:8 * k + 8]]))
        if name.startswith("llvm.fsh"):
            w = ins.ty.a
            if not isinstance(a[2], int):
                raise Lost("rotate by an unknown amount")
            c = bits(a[1], w) + bits(a[0], w)
            k = a[2] % w
            return ("v", mk(w, c[w - k:2 * w - k] if "fshl" in name else c[k:k + w]))
        if name.startswith("llvm.memcpy.") or name in ("memcpy", "memmove") or name.startswith("llvm.memmove."):
            self.copy(st, a[0], a[1], a[2], ins)
            return ("v", a[0])
        if name.startswith("llvm.memset.") or name == "memset":
            if not isinstance(a[2], int):
                raise Lost("memset of unknown length")
            for k in range(a[2]):
                self.put(st, Ptr(a[0].r, a[0].o + k), 1, mk(8, bits(a[1], 8 if name != "memset" else 32)[:8]), ins)
            return ("v", a[0])
        if name.startswith("llvm.umin") or name.startswith("llvm.umax"):
            return ("v", [(s, (a[0] if x else a[1])) for s, x in
                          self.compare(st, "ule" if "umin" in name else "uge", a[0], a[1], ins.ty.a)])
        raise Lost("call of " + name)

    ASM = {"crc32cb": 8, "crc32ch": 16, "crc32cw": 32, "crc32cx": 64}

    def asm(self, st, ins):
        """one crc32c instruction of AArch64: the register in (tied operand), the data"""
        t = ins.x.get("asm", "").replace("\\09", " ").split()
        n = self.ASM.get(t[0] if t else "")
        a = [self.opnd(st, av, at) for at, av, _ in ins.x["args"]]
        # $0 out, $2 its tied input, $1 data: "crc32cx ${0:w}, ${0:w}, ${1:x}"
        rest = "".join(t[1:])
        if n is None or len(a) != 2 or ins.ty.k != "int" or "\\0A" in rest:
            raise Lost("assembly " + ins.x.get("asm", ""))
        opn = [x[2] if x.startswith("${") else x[1:2] for x in rest.split(",")]
        if opn[:2] != ["0", "0"] or opn[2:] != ["1"]:
            raise Lost("assembly operands " + rest)
        # inputs in IR order: the data ("r"), then the tied register ("0")
        w1 = ins.x["args"][1][0].a
        w0 = ins.x["args"][0][0].a
        data = (bits(a[0], w0) + [0] * 64)[:n]
        r = step_bits(bits(a[1], w1)[:32], data)
        return ("v", mk(ins.ty.a, (r + [0] * 32)[:ins.ty.a]))

    def copy(self, st, d, s, n, ins):
        if not isinstance(n, int):
            raise Lost("copy of unknown length")
        if not isinstance(d, Ptr) or not isinstance(s, Ptr) or d.tab or s.tab:
            raise Lost("copy")
        r = st.mem[s.r]
        if n == 0:
            return
        if self.in_range(st, r, simp(s.o), n, ins, "load") is False:
            raise Lost("out of range")
        if n in (1, 2, 4, 8):
            by = self.load_bytes(st, r, simp(s.o), n)
            if self.be:
                by = by[::-1]
            self.put(st, d, n, mk(8 * n, [x for b in by for x in b]), ins)
            return
        by = self.load_bytes(st, r, simp(s.o), n)
        for k, b in enumerate(by):
            self.put(st, Ptr(d.r, d.o + k), 1, mk(8, b), ins)


def order(w, v):
    """where the register's bits lie in a w-bit variable: low half, or byte-swapped into the high half of 64"""
    if w == 64 and isinstance(v, BV) and all(f == 0 for f in v.b[:32]):
        return [(7 - i // 8) * 8 + i % 8 for i in range(32)]
    if w < 32:
        raise Lost("narrow register")
    return list(range(32))


def place(f, w, v):
    b = [0] * w
    for i, p in enumerate(order(w, v)):
        b[p] = f[i]
    return mk(w, b)


def unplace(b, w, v):
    o = order(w, v)
    if any(x != 0 for i, x in enumerate(b) if i not in o):
        raise Lost("wide register")
    return [b[p] for p in o]


class Stream:
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return " + ".join("Z^%r %s%r" % x for x in self.t)
