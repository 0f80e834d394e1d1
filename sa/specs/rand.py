"""sc_rand: the table stays a permutation and every step is RC4's.

The functions are evaluated over terms: bytes are linear forms modulo 2^n over selections from hash-consed table versions, a pair of crossing
stores is recognised as a swap.  The seed, the table and both counters are symbols; the only things that are concrete are the trip counts."""
import random
from .. import front, ir

SRC = "sc/sc.c"


class Lost(Exception):
    pass


class Outside(Exception):
    pass


# ----------------------------------------------------------------- terms
def lin(w, c, t=()):
    d = {}
    for a, k in t:
        d[a] = (d.get(a, 0) + k) % (1 << w)
    return (w, c % (1 << w), tuple(sorted(((a, k) for a, k in d.items() if k), key=repr)))


def add(x, y, k=1):
    return lin(x[0], x[1] + k * y[1], x[2] + tuple((a, k * b) for a, b in y[2]))


def scale(x, k):
    return lin(x[0], x[1] * k, tuple((a, k * b) for a, b in x[2]))


def num(w, c):
    return lin(w, c)


def atom(w, a):
    return lin(w, 0, ((a, 1),))


def const(x):
    return x[1] if not x[2] else None


def sgn(w, c):
    return c - (1 << w) if c >> (w - 1) else c


def bound(x):
    """greatest value of a form over zero-extended bytes that cannot wrap, or None"""
    if any(a[0] != "z" for a, k in x[2]):
        return None
    m = x[1] + sum(k * ((1 << a[1][0]) - 1) for a, k in x[2])
    return m if m < 1 << (x[0] - 1) else None


def widen(x, w, signed):
    if x[0] == w:
        return x
    c = const(x)
    if c is not None:
        return num(w, sgn(x[0], c) if signed else c)
    if bound(x) is not None:
        return (w, x[1], x[2])
    if signed:
        return atom(w, ("op", "sext", x))
    return atom(w, ("z", x))


def narrow(x, w):
    t, c = [], x[1]
    for a, k in x[2]:
        if a[0] == "z" and a[1][0] == w:
            t += [(b, k * m) for b, m in a[1][2]]
            c += k * a[1][1]
        elif a[0] == "z" and a[1][0] < w:
            t.append((a, k))
        elif a[0] == "z":
            y = narrow(a[1], w)
            t += [(b, k * m) for b, m in y[2]]
            c += k * y[1]
        else:
            t.append((("op", "trunc", w, atom(x[0], a)), k))
    return lin(w, c, tuple(t))


class Tables:
    """versions of byte tables"""

    def __init__(self):
        self.defs, self.ids = [], {}

    def mk(self, d):
        if d not in self.ids:
            self.ids[d] = len(self.defs)
            self.defs.append(d)
        return self.ids[d]

    def base(self, name):
        return self.mk(("base", name))

    def fill(self, c, n):
        return self.mk(("map", None, tuple(num(8, c) for i in range(n))))

    def identity(self, n):
        return self.mk(("map", None, tuple(num(8, i) for i in range(n))))

    def sel(self, A, i):
        while True:
            d = self.defs[A]
            c = const(i)
            if d[0] == "map" and c is not None:
                if d[2][c] is not None:
                    return d[2][c]
                A = d[1]
                continue
            if d[0] == "store":
                if d[2] == i:
                    return d[3]
                if const(d[2]) is not None and c is not None or d[3] == self.sel(d[1], i):
                    A = d[1]
                    continue
            if d[0] == "swap":
                for x, y in (d[2], d[2][::-1]):
                    if x == i:
                        return self.sel(d[1], y)
                if c is not None and all(const(x) is not None for x in d[2]):
                    A = d[1]
                    continue
            return atom(8, ("sel", A, i))

    def store(self, A, i, v, n=256):
        d = self.defs[A]
        c = const(i)
        half = not v[1] and len(v[2]) == 1 and v[2][0][1] == 1 and v[2][0][0][:2] == ("sel", A)     # of a swap
        if c is not None and d[0] in ("map", "base") and not half:
            base, cells = (d[1], list(d[2])) if d[0] == "map" else (A, [None] * n)
            cells[c] = v
            return self.mk(("map", None if all(x is not None for x in cells) else base, tuple(cells)))
        if d[0] == "store":
            if d[2] == i:
                return self.store(d[1], i, v)
            if v == self.sel(d[1], d[2]) and d[3] == self.sel(d[1], i):
                return self.mk(("swap", d[1], tuple(sorted((d[2], i), key=repr))))
        if v == self.sel(A, i):
            return A
        return self.mk(("store", A, i, v))


# -------------------------------------------------------------- evaluation
class Region:
    def __init__(self, base, n, T, arr, size):
        self.base, self.n, self.arr, self.size = base, n, arr, size
        self.cells = {}
        self.T = T

    def where(self, off):
        """-> ("cell", offset) or ("tab", index)"""
        c = const(off)
        if c is not None:
            if not 0 <= c < self.size:
                raise Outside("access at %d of %d bytes" % (sgn(64, c), self.size))
            return ("tab", num(8, c - self.base)) if self.base <= c < self.base + self.n else ("cell", c)
        if off[1] == self.base and len(off[2]) == 1 and off[2][0][1] == 1 and off[2][0][0][0] == "z" and off[2][0][0][1][0] == 8 and self.n == 256:
            return ("tab", off[2][0][0][1])
        raise Lost("a place in the table that is not a byte")

    def load(self, off):
        k, i = self.where(off)
        if k == "tab":
            return self.T.sel(self.arr, i)
        if i not in self.cells:
            raise Lost("read of a byte that was never written")
        return self.cells[i]

    def store(self, off, v):
        k, i = self.where(off)
        if k == "tab":
            self.arr = self.T.store(self.arr, i, v, self.n)
        else:
            self.cells[i] = v


def holds(pred, w, x, y):
    if pred[0] == "s":
        x, y = sgn(w, x), sgn(w, y)
    return int({"eq": x == y, "ne": x != y, "gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[pred[-2:]])


FORKS = 6


class Run:
    def __init__(self, m, T):
        self.m, self.T, self.reg, self.steps, self.seen = m, T, {}, 0, set()
        self.plan, self.path = [], []

    def decide(self, c):
        """follow one side of a branch on the data; the other side is another path"""
        k = const(c)
        if k is not None:
            return k
        for x, v in self.path:
            if x == c:
                return v
        if len(self.path) >= FORKS:
            raise Lost("too many branches on the data")
        v = self.plan[len(self.path)] if len(self.path) < len(self.plan) else 0
        self.path.append((c, v))
        return v

    def struct(self, name, arr=None):
        t = self.m.types.get("struct.sc_rand")
        if t is None:
            raise Lost("no struct sc_rand")
        offs, size = self.m.layout(t)
        tab = [(o, f) for o, f in zip(offs, t.a) if f.k == "arr"]
        if len(tab) != 1 or tab[0][1].a != 256 or self.m.size(tab[0][1].b) != 1:
            raise Lost("struct sc_rand has no table of 256 bytes")
        self.reg[name] = Region(tab[0][0], 256, self.T, arr, size)
        return self.reg[name]

    def val(self, ty, v, env):
        k = v[0]
        if k == "reg":
            return env[v[1]]
        if k == "int":
            return num(ty.a, v[1])
        if k == "null":
            return ("ptr", None, num(64, 0))
        if k == "zero":
            return num(ty.a, 0)
        raise Lost("operand %s" % (v,))

    def call(self, name, args, depth=0):
        f = self.m.funcs.get(name)
        if f is None or not f.blocks or depth > 8:
            raise Lost("call of %s" % name)
        self.seen.add(name)
        env = {p[1]: a for p, a in zip(f.params, args)}
        blk, prev = f.order[0] if not hasattr(f.order[0], "insts") else f.order[0].label, None
        while True:
            b = f.blocks[blk]
            new = {}
            for i in list(b.phis) + list(b.insts):
                if i.op == "phi":
                    new[i.res] = self.val(i.ty, i.x["inc"][prev], env)
            env.update(new)
            nxt = None
            for i in b.insts:
                self.steps += 1
                if self.steps > 200000:
                    raise Lost("too many steps")
                if i.op == "phi":
                    continue
                if i.op == "ret":
                    return self.val(i.ty, i.ops[0], env) if i.ops else None
                if i.op == "br":
                    if i.x["c"] is None:
                        nxt = i.x["t"]
                    else:
                        c = self.decide(self.val(ir.I(1), i.x["c"], env))
                        nxt = i.x["t"] if c else i.x["f"]
                    break
                if i.op == "switch":
                    c = const(self.val(i.ty, i.ops[0], env))
                    if c is None:
                        raise Lost("a branch on the data in %s" % name)
                    nxt = dict((x % (1 << i.ty.a), l) for x, l in i.x["cases"]).get(c, i.x["d"])
                    break
                r = self.inst(i, env, depth)
                if i.res is not None:
                    env[i.res] = r
            if nxt is None:
                raise Lost("no way out of %s" % blk)
            blk, prev = nxt, blk

    def inst(self, i, env, depth):
        op, m = i.op, self.m
        if op == "alloca":
            t = m.resolve(i.ty)
            name = "alloca%d" % len(self.reg)
            if i.ty.k == "named" and i.ty.a == "struct.sc_rand":
                self.struct(name)
            elif t.k == "arr" and m.size(t.b) == 1:
                self.reg[name] = Region(0, t.a, self.T, self.T.base(name), t.a)
            else:
                raise Lost("a local variable in memory")
            return ("ptr", name, num(64, 0))
        if op == "getelementptr":
            p = self.val(ir.PTR, i.x["idx"][0][1], env)
            off, t = p[2], i.x["bt"]
            for n, (ty, v) in enumerate(i.x["idx"][1:]):
                x = self.val(ty, v, env)
                if n == 0:
                    off = add(off, scale(widen(x, 64, True), m.size(t)))
                    continue
                t = m.resolve(t)
                if t.k == "arr":
                    off = add(off, scale(widen(x, 64, True), m.size(t.b)))
                    t = t.b
                else:
                    off = add(off, num(64, m.layout(t)[0][const(x)]))
                    t = t.a[const(x)]
            return ("ptr", p[1], off)
        if op == "load":
            p = self.val(ir.PTR, i.ops[0], env)
            if i.ty.k != "int" or i.ty.a != 8:
                raise Lost("a read of %r" % i.ty)
            return self.region(p).load(p[2])
        if op == "store":
            p = self.val(ir.PTR, i.ops[1], env)
            if i.ty.k != "int" or i.ty.a != 8:
                raise Lost("a write of %r" % i.ty)
            self.region(p).store(p[2], self.val(i.ty, i.ops[0], env))
            return None
        if op == "call":
            return self.ext(i, env, depth)
        if op in ("zext", "sext"):
            return widen(self.val(i.x["from"], i.ops[0], env), i.ty.a, op == "sext")
        if op == "trunc":
            return narrow(self.val(i.x["from"], i.ops[0], env), i.ty.a)
        if op == "freeze":
            return self.val(i.ty, i.ops[0], env)
        if op == "select":
            c = self.decide(self.val(ir.I(1), i.ops[0], env))
            return self.val(i.ty, i.ops[1 if c else 2], env)
        a, b = (self.val(i.ty, x, env) for x in i.ops[:2])
        if op == "icmp":
            return self.icmp(i.x["pred"], a, b)
        w = i.ty.a
        if op in ("add", "sub"):
            return add(a, b, 1 if op == "add" else -1)
        ca, cb = const(a), const(b)
        if op == "mul" and (ca is not None or cb is not None):
            return scale(b, ca) if ca is not None else scale(a, cb)
        if op == "shl" and cb is not None:
            return scale(a, 1 << cb)
        if op == "and" and 255 in (ca, cb):
            return widen(narrow(b if ca == 255 else a, 8), w, False)
        if op == "urem" and cb == 256:
            return widen(narrow(a, 8), w, False)
        if op == "srem" and cb == 256 and bound(a) is not None:
            return widen(narrow(a, 8), w, False)
        r = atom(w, ("op", op, a, b))
        if ca is not None and cb is not None:
            return num(w, value(self.T, {}, {}, r))
        return r

    def icmp(self, pred, a, b):
        if a[0] == "ptr":
            if a[1] == b[1]:
                a, b = a[2], b[2]
            elif None in (a[1], b[1]):
                return num(1, {"eq": 0, "ne": 1}[pred])
            else:
                raise Lost("comparing pointers")
        if a == b:
            return num(1, 1 if pred in ("eq", "uge", "ule", "sge", "sle") else 0)
        x, y = const(a), const(b)
        if (x is None or y is None) and a[0] == "ptr":
            raise Lost("a comparison of places")
        if x is None or y is None:
            return atom(1, ("cmp", pred, a, b))
        return num(1, holds(pred, a[0], x, y))

    def region(self, p):
        if p[0] != "ptr" or p[1] not in self.reg:
            raise Lost("access through an unknown pointer")
        return self.reg[p[1]]

    def ext(self, i, env, depth):
        cal = i.x["callee"]
        args = [self.val(t, v, env) for t, v, _ in i.x["args"]]
        name = cal[1] if cal[0] == "glob" else None
        if name and name in self.m.funcs and self.m.funcs[name].blocks:
            return self.call(name, args, depth + 1)
        base = (name or "").replace("llvm.", "").split(".")[0]
        if base in ("lifetime", "assume", "dbg"):
            return None
        n = const(args[2]) if len(args) > 2 else None
        if base in ("memset", "memcpy", "memmove") and n is not None:
            d = self.region(args[0])
            o = const(args[0][2])
            if o is None:
                raise Lost("a block at an unknown place")
            if base == "memset":
                c = const(narrow(args[1], 8) if args[1][0] != 8 else args[1])
                if c is None:
                    raise Lost("memset with data")
                if o <= d.base and d.base + d.n <= o + n:
                    d.arr = self.T.fill(c, d.n)
                put = lambda k: num(8, c)
            else:
                s = self.region(args[1])
                q = const(args[1][2])
                if q is None:
                    raise Lost("a block at an unknown place")
                if o <= d.base and d.base + d.n <= o + n and s.base - q == d.base - o and s.n == d.n:
                    d.arr = s.arr
                put = lambda k: s.load(num(64, q + k - o))
            whole = o <= d.base and d.base + d.n <= o + n and (base == "memset" or s.base - q == d.base - o and s.n == d.n)
            got = {k: put(k) for k in range(o, o + n) if not (whole and d.base <= k < d.base + d.n)}
            for k, v in got.items():
                d.store(num(64, k), v)
            return args[0]
        raise Lost("call of %s" % name)


# ------------------------------------------- random interpretation of terms
def value(T, tabs, syms, x):
    w = x[0]
    r = x[1]
    for a, k in x[2]:
        r += k * avalue(T, tabs, syms, a, w)
    return r % (1 << w)


def avalue(T, tabs, syms, a, w):
    if a[0] == "sym":
        return syms[a[1]]
    if a[0] == "z":
        return value(T, tabs, syms, a[1])
    if a[0] == "sel":
        return tabs[a[1]][value(T, tabs, syms, a[2])]
    if a[0] == "cmp":
        return holds(a[1], a[2][0], value(T, tabs, syms, a[2]), value(T, tabs, syms, a[3]))
    if a[1] == "sext":
        return sgn(a[2][0], value(T, tabs, syms, a[2]))
    if a[1] == "trunc":
        return value(T, tabs, syms, a[3])
    p, q = value(T, tabs, syms, a[2]), value(T, tabs, syms, a[3])
    sp, sq = sgn(w, p), sgn(w, q)
    op = a[1]
    if op in ("udiv", "urem", "sdiv", "srem") and q == 0:
        raise Lost("division by zero")
    return {"and": lambda: p & q, "or": lambda: p | q, "xor": lambda: p ^ q, "mul": lambda: p * q, "shl": lambda: p << min(q, w),
            "lshr": lambda: p >> q, "ashr": lambda: sp >> q, "udiv": lambda: p // q, "urem": lambda: p % q,
            "sdiv": lambda: abs(sp) // abs(sq) * (1 if (sp < 0) == (sq < 0) else -1),
            "srem": lambda: abs(sp) % abs(sq) * (1 if sp >= 0 else -1)}[op]()


def tables(T, syms, bases):
    tabs = []
    for d in T.defs:
        if d[0] == "base":
            t = bases.setdefault(d[1], [random.Random(repr((d[1], len(bases)))).randrange(256) for _ in range(256)])
        elif d[0] == "map":
            t = [tabs[d[1]][k] if v is None else value(T, tabs, syms, v) for k, v in enumerate(d[2])]
        else:
            t = list(tabs[d[1]])
            if d[0] == "store":
                t[value(T, tabs, syms, d[2])] = value(T, tabs, syms, d[3])
            else:
                x, y = (value(T, tabs, syms, z) for z in d[2])
                t[x], t[y] = t[y], t[x]
        tabs.append(t)
    return tabs


def same(T, pairs, path=()):
    """pairs of equal kind ("tab", id) or ("int", term) -> True, False (they differ under some interpretation) or None"""
    if all(a == b for a, b in pairs):
        return True
    for n in range(600 if path else 12):
        rnd = random.Random(n)
        bases = {x: [rnd.randrange(256) for _ in range(256)] for x in ("K", "S")}
        if n % 2:
            bases["S"] = list(range(256))
            rnd.shuffle(bases["S"])
        syms = {"i": rnd.randrange(256) if n % 3 else 255, "j": rnd.randrange(256)}
        if n % 4 == 3:      # the first step trades an entry with itself
            syms["j"] = (syms["i"] + 1 - bases["S"][(syms["i"] + 1) % 256]) % 256
        tabs = tables(T, syms, bases)
        if any(value(T, tabs, syms, c) != v for c, v in path):
            continue
        for a, b in pairs:
            x, y = (tabs[z[1]] if z[0] == "tab" else value(T, tabs, syms, z[1]) for z in (a, b))
            if x != y:
                return False
    return None


# ------------------------------------------------------------- reference
def swap(T, A, x, y):
    a, b = T.sel(A, x), T.sel(A, y)
    return T.store(T.store(A, x, b), y, a)


def schedule(T):
    A, K, j = T.identity(256), T.base("K"), num(8, 0)
    for i in range(256):
        j = add(add(j, T.sel(A, num(8, i))), T.sel(K, num(8, i)))
        A = swap(T, A, num(8, i), j)
    return A, j


def generate(T, A, i, j, n):
    out = []
    for k in range(n):
        i = add(i, num(8, 1))
        j = add(j, T.sel(A, i))
        A = swap(T, A, i, j)
        out.append(T.sel(A, add(T.sel(A, i), T.sel(A, j))))
    return A, i, j, out


def check(R, tier):
    m = front.load(SRC)
    R.units.add(SRC)
    init(R, m)
    for n in (1, 2, 3, 7) if tier == "quick" else (1, 2, 3, 4, 5, 7, 8, 16, 33, 64):
        read(R, m, n)
    chained(R, m)


def line(m, fn):
    f = m.funcs.get(fn)
    for b in f.order if f else ():
        b = f.blocks[b] if not hasattr(b, "insts") else b
        for i in b.insts:
            if i.dbg:
                x, l = m.loc(i.dbg)
                return "%s:%d" % (x, l)
    return SRC


def ask(R, m, fn, body):
    work = [[]]
    while work:
        T = Tables()
        X = Run(m, T)
        X.plan = work.pop()
        end = None
        try:
            for what, ok, detail in body(X, T):
                R.fact("rc4", ok, fn, line(m, fn), what, detail)
        except Lost as e:
            end = str(e)
        except Outside as e:
            # on the side of a branch that may be impossible it is not held against the code
            R.fact("rc4", None if X.path else False, fn, line(m, fn), "every access stays inside the table, the seed and the bytes asked for", str(e))
            end = str(e)
        except (KeyError, IndexError) as e:
            end = "%s %s" % (type(e).__name__, e)
        R.fact("rc4", None if end else True, fn, line(m, fn), "the function is followed to its end", end)
        R.functions |= X.seen
        R.insts += X.steps
        for k in range(len(X.plan), len(X.path)):
            work.append([v for c, v in X.path[:k]] + [1])


def scalars(m):
    """offsets of the fields i and j"""
    try:
        return m.field("sc_rand", "i"), m.field("sc_rand", "j")
    except (KeyError, TypeError, AttributeError):
        raise Lost("no fields i and j")


def off(x):
    return x[0] if isinstance(x, tuple) else x


def init(R, m):
    def body(X, T):
        r = X.struct("r")
        r.arr = T.base("before")
        X.reg["K"] = Region(0, 256, T, T.base("K"), 256)
        X.call("sc_rand_init", [("ptr", "r", num(64, 0)), ("ptr", "K", num(64, 0))])
        A, j = schedule(T)
        yield "the table starts as all byte values and is shuffled with every byte of the seed", same(T, [(("tab", r.arr), ("tab", A))], X.path), None
        yield "the seed is left alone", same(T, [(("tab", X.reg["K"].arr), ("tab", T.base("K")))], X.path), None
        oi, oj = map(off, scalars(m))
        yield "reading starts at the first entry", oi in r.cells and same(T, [(("int", r.cells[oi]), ("int", num(8, 0)))], X.path), None
        yield "the second counter is set", r.cells.get(oj) is not None and (r.cells[oj] == num(8, 0) or same(T, [(("int", r.cells[oj]), ("int", j))], X.path)), None
        bad = perm(T, r.arr)
        bad = None if bad is False and X.path else bad
        yield "the table is a permutation of all byte values after seeding", bad, None
    ask(R, m, "sc_rand_init", body)


def perm(T, A):
    """only swaps since the identity"""
    while T.defs[A][0] == "swap":
        A = T.defs[A][1]
    if A == T.identity(256):
        return True
    d = T.defs[A]
    if d[0] == "map" and d[1] is None and sorted(map(const, (x for x in d[2] if not x[2]))) == list(range(256)):
        return True
    return None if d[0] == "store" else False


def state(X, T, m):
    r = X.struct("r", T.base("S"))
    oi, oj = map(off, scalars(m))
    r.cells[oi], r.cells[oj] = atom(8, ("sym", "i")), atom(8, ("sym", "j"))
    return r, oi, oj


def compare(X, T, r, oi, oj, outs, n, what):
    A, i, j, out = generate(T, T.base("S"), atom(8, ("sym", "i")), atom(8, ("sym", "j")), n)
    yield what + ": every byte is RC4's next one", same(T, [(("int", x), ("int", y)) for x, y in zip(outs, out)], X.path), None
    yield what + ": two entries of the table trade places at each step", same(T, [(("tab", r.arr), ("tab", A))], X.path), None
    yield what + ": both counters carry over to the next read", same(T, [(("int", r.cells[oi]), ("int", i)), (("int", r.cells[oj]), ("int", j))], X.path), None


def read(R, m, n):
    def body(X, T):
        r, oi, oj = state(X, T, m)
        X.reg["out"] = Region(0, 0, T, None, n)
        X.call("sc_rand_read", [("ptr", "r", num(64, 0)), ("ptr", "out", num(64, 0)), num(32, n)])
        outs = [X.reg["out"].load(num(64, k)) for k in range(n)]
        for x in compare(X, T, r, oi, oj, outs, n, "%d bytes" % n):
            yield x
    ask(R, m, "sc_rand_read", body)


def chained(R, m):
    """two reads give what one read of the whole gives"""
    for p, q in ((1, 1), (2, 1), (1, 3)):
        def body(X, T):
            r, oi, oj = state(X, T, m)
            outs = []
            for n, k in ((p, "a"), (q, "b")):
                X.reg[k] = Region(0, 0, T, None, n)
                X.call("sc_rand_read", [("ptr", "r", num(64, 0)), ("ptr", k, num(64, 0)), num(32, n)])
                outs += [X.reg[k].load(num(64, x)) for x in range(n)]
            for x in compare(X, T, r, oi, oj, outs, p + q, "%d and %d bytes" % (p, q)):
                yield x
        ask(R, m, "sc_rand_read", body)
    for n, place in ((0, "out"), (-1, "out"), (-2 ** 31, "out"), (0, None), (10, None)):
        def nothing(X, T):
            r, oi, oj = state(X, T, m)
            X.reg["out"] = Region(0, 0, T, None, 1)
            X.call("sc_rand_read", [("ptr", "r", num(64, 0)), ("ptr", place, num(64, 0)), num(32, n)])
            yield "a read of nothing, or to nowhere, leaves the generator alone", same(T, [
                (("tab", r.arr), ("tab", T.base("S"))), (("int", r.cells[oi]), ("int", atom(8, ("sym", "i")))),
                (("int", r.cells[oj]), ("int", atom(8, ("sym", "j"))))], X.path), None
        ask(R, m, "sc_rand_read", nothing)
