"""Abstract interpreter over the IR.

Abstract state = SSA environment x memory (regions with symbolic-offset cells)
x numeric element (lin.Cons) x typestate ghosts.  Control flow is followed with
trace partitioning (states are kept apart as long as the budget allows) and
loops are handled either by exhaustive peeling (when every trip leaves the
loop) or by a widening fixpoint over the loop head (fixpoint mode).
Calls to functions with a body are analysed in the caller's context, calls to
declared functions go to a model table (models.py).
"""
import sys
import time
from . import lin, bits
from .lin import Lin, K, V, ZERO, ONE, fresh, memo_sym, SYMS

sys.setrecursionlimit(20000)

NULLB = "null"


class AnalysisError(Exception):
    pass


# wall-clock limits of one check: past SOFT loops are not unrolled any further,
# past HARD the entry function is given up on (both are reported)
SOFT = [None]
HARD = [None]


class Budget(Exception):
    pass


class Ptr:
    __slots__ = ("b", "off")

    def __init__(self, b, off=ZERO):
        self.b = b
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.b == o.b and self.off == o.off

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash((self.b, self.off))

    def __repr__(self):
        return "&%s[%s]" % (self.b, self.off)


NULL = Ptr(NULLB, ZERO)


class Agg:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = tuple(v)

    def __eq__(self, o):
        return isinstance(o, Agg) and self.v == o.v

    def __hash__(self):
        return hash(self.v)


class Fill:
    """range entry: every byte is c (an 8-bit Lin)"""
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c


class Copy:
    """range entry: bytes of region `src` (a snapshot) starting at `off`"""
    __slots__ = ("src", "off", "rid")

    def __init__(self, src, off, rid):
        self.src = src
        self.off = off
        self.rid = rid


class Havoc:
    """range entry: unknown bytes (one value number per offset)"""
    __slots__ = ("why", "uid")
    _n = [0]

    def __init__(self, why=""):
        self.why = why
        Havoc._n[0] += 1
        self.uid = Havoc._n[0]


class Region:
    __slots__ = ("rid", "kind", "name", "size", "default", "ents", "lazy", "live", "a", "loc", "nwr")

    def __init__(self, rid, kind, name, size, default):
        self.rid = rid
        self.kind = kind
        self.name = name
        self.size = size          # Lin or None (unknown, unchecked)
        self.default = default    # zero | sym | undef
        self.ents = ()            # written cells, oldest first
        self.lazy = ()            # initial contents read so far
        self.live = True
        self.a = {}               # attributes (copied on write)
        self.loc = None
        self.nwr = 0

    def copy(self):
        r = Region(self.rid, self.kind, self.name, self.size, self.default)
        r.ents = self.ents
        r.lazy = self.lazy
        r.live = self.live
        r.a = self.a
        r.loc = self.loc
        r.nwr = self.nwr
        return r


class State:
    __slots__ = ("frames", "cs", "mem", "pmap", "g", "exact", "trace", "depth")

    def __init__(self):
        self.frames = [{}]
        self.cs = lin.Cons()
        self.mem = {}
        self.pmap = {}
        self.g = {}
        self.exact = True
        self.trace = None
        self.depth = 0

    def fork(self):
        s = State.__new__(State)
        s.frames = [dict(self.frames[-1])] if len(self.frames) == 1 else \
            self.frames[:-1] + [dict(self.frames[-1])]
        s.cs = self.cs.copy()
        s.mem = dict(self.mem)
        s.pmap = dict(self.pmap)
        s.g = dict(self.g)
        s.exact = self.exact
        s.trace = self.trace
        s.depth = self.depth
        return s

    # ------------------------------------------------------------- helpers
    def reg(self, rid):
        return self.mem[rid]

    def wreg(self, rid):
        r = self.mem[rid].copy()
        self.mem[rid] = r
        return r

    def set_attr(self, rid, k, v):
        r = self.wreg(rid)
        r.a = dict(r.a)
        r.a[k] = v

    def tracelist(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        return out[::-1]

    def note(self, s):
        self.trace = (self.trace, s)

    def norm(self, v):
        if isinstance(v, Lin):
            return self.cs.norm(v)
        if isinstance(v, Ptr):
            v = self.rp(v)
            return Ptr(v.b, self.cs.norm(v.off))
        return v

    def sameptr(self, p, q):
        p, q = self.rp(p), self.rp(q)
        return p.b == q.b and self.eq(p.off - q.off)

    def isnull(self, p):
        """is p the null pointer itself, not an offset from it?"""
        p = self.rp(p)
        return p.b == NULLB and self.eq(p.off)

    def rp(self, p):
        """follow pointer resolution"""
        while isinstance(p.b, tuple) and p.b in self.pmap:
            q = self.pmap[p.b]
            p = Ptr(q.b, q.off + p.off)
        return p

    # entailments
    def ge(self, a, b=0):
        return self.cs.entails_ge(a - b) or self._no(a - b)

    def eq(self, a, b=0):
        return self.cs.entails_eq(a - b) or self._no(a - b)

    def ne(self, a, b=0):
        return self.cs.entails_ne(a - b) or self._no(a - b)

    def _no(self, e):
        """not provable: refuted, or unknown (None) when a lost value is involved"""
        return None if lin.vague(e) or lin.vague(self.cs.norm(e)) else False

    def assume_ge(self, a, b=0):
        return self.cs.add_ge(a - b)

    def assume_eq(self, a, b=0):
        return self.cs.add_eq(a - b if isinstance(b, (int, Lin)) else a)

    def const(self, v):
        """constant integer value or None"""
        v = self.cs.norm(v)
        if not v.t:
            return v.c
        return None


LOOSE = {"and", "andc", "or", "xor", "shl", "shl1", "lshr", "ashr", "mul", "udiv", "urem", "sdiv", "srem"}


def loose(e):
    """does e depend on an operation that is only bounded here?  A branch on it may be impossible in ways nobody can see"""
    for s, k in e.t:
        d = lin.SYMS[s].defn
        if isinstance(d, tuple) and d and isinstance(d[0], str) and d[0] in LOOSE:
            return True
    return False


def skel_write(*a):
    from .skel import on_write
    on_write(*a)


def skel_copy(*a):
    from .skel import on_copy
    on_copy(*a)


_rid = [0]


def new_rid():
    _rid[0] += 1
    return _rid[0]


ADDR = {}


def addr_sym(b):
    """symbolic address of a pointer base"""
    if b == NULLB:
        return ZERO
    s = ADDR.get(b)
    if s is None:
        s = lin.new_sym("&%s" % (b,), 4096, 2 ** 63 - 2 ** 40, ("addr", b))
        ADDR[b] = s
    return V(s)


class Ob:
    """one obligation instance (aggregated over states)"""
    __slots__ = ("key", "ok", "bad", "unk", "msg", "loc", "func", "trace", "kind", "detail")


def masked(op, x, k, n):
    """x & k or x | k for a constant k, kept as (x & m) | c: bit-fields filled one by one become constants"""
    M = (1 << n) - 1
    k &= M
    m, c = M, 0
    if len(x.t) == 1 and not x.c and x.t[0][1] == 1:
        d = lin.SYMS[x.t[0][0]].defn
        if isinstance(d, tuple) and d[0] == "masked" and d[4] == n:
            x, m, c = d[1:4]
    m, c = (m & k, c & k) if op == "and" else (m & ~k, c | k)
    if not m:
        return K(c)
    return x if m == M else V(memo_sym(("masked", x, m, c, n), "bits", c, c | m))


# what happened so far, kept for postconditions only
HISTORY = {"copied", "eqr", "ner", "nohit", "found", "member", "span", "fmt", "fmtptr", "formatted", "freed", "realloc", "visits"}


class Engine:
    def __init__(self, mod, models=None, opts=None):
        self.mod = mod
        self.models = models or {}
        self.obs = {}
        self.glob = {}
        self.opts = opts or {}
        self.cur = []               # call stack of function names
        self.entry = None
        self.checks = {"mem"}       # which generic obligations are on
        self.max_unroll = self.opts.get("unroll", 3)
        self.max_states = self.opts.get("states", 6000)
        self.mode = self.opts.get("mode", "fix")
        self.hooks = {}
        self.visited = set()
        self.unmodelled = set()
        self.callsites = 0
        self.ninst = 0
        self.incomplete = []
        self.cuts = []          # states in which a loop was still running when it was cut
        self.join_limit = self.opts.get("join_limit", 3000)
        self.overrides = {}
        self.access_hook = None
        self.edge_hook = None
        self.prov = {}

    # ------------------------------------------------------------- obligations
    def ob(self, st, kind, ok, msg, inst=None, detail=None, exact=None, where=None):
        """ok: True proved, False not provable (violation if st.exact),
        None unknown"""
        if where is None:
            where = self.where(inst)
        key = (kind, self.entry, self.cur[-1] if self.cur else self.entry, where, msg)
        o = self.obs.get(key)
        if o is None:
            o = Ob()
            o.key = key
            o.ok = o.bad = o.unk = 0
            o.msg = msg
            o.kind = kind
            o.loc = where
            o.func = key[2]
            o.trace = None
            o.detail = None
            self.obs[key] = o
        if ok is True:
            o.ok += 1
        elif ok is False and (st.exact if exact is None else exact):
            o.bad += 1
            if o.trace is None:
                o.trace = st.tracelist()
                o.detail = detail
        else:
            o.unk += 1
            if o.trace is None and o.detail is None:
                o.detail = detail
        return ok

    def where(self, inst):
        if inst is None:
            return "exit"
        if inst.dbg:
            f, l = self.mod.loc(inst.dbg)
            return "%s:%d" % (f, l)
        return "%s:?" % (self.cur[-1] if self.cur else "?")

    # ------------------------------------------------------------- regions
    def new_region(self, st, kind, name, size, default):
        rid = new_rid()
        r = Region(rid, kind, name, K(size) if isinstance(size, int) else size, default)
        st.mem[rid] = r
        return rid

    def global_region(self, st, name):
        key = "@" + name
        if key in st.mem:
            return key
        r = Region(key, "global", name, None, "sym")
        g = self.mod.globals.get(name)
        if name in self.mod.funcs or name in self.mod.decls:
            r.kind = "func"
            r.size = ZERO
        elif g is not None:
            if g.external:
                r.size = K(self.mod.size(g.ty))
                r.default = "sym"
                r.kind = "extglobal"
            else:
                r.size = K(self.mod.size(g.ty))
                r.kind = "const" if g.const else "global"
                r.default = "zero"
                ents = []
                self._init_const(st, g.ty, g.init, 0, ents)
                if not g.const and name not in self.opts.get("zero_globals", ()):
                    # mutable global: arbitrary contents unless a spec pins it
                    r.default = "sym"
                    ents = []
                r.ents = tuple(ents)
        st.mem[key] = r
        return key

    def _init_const(self, st, ty, v, off, ents):
        t = self.mod.resolve(ty)
        if v is None or v[0] in ("zero", "undef"):
            return
        if v[0] == "str":
            b = v[1]
            ents.append((K(off), K(len(b)), ("bytes", b)))
            return
        if v[0] == "agg":
            if t.k == "arr":
                es = self.mod.size(t.b)
                for i, (et, ev) in enumerate(v[1]):
                    self._init_const(st, et, ev, off + i * es, ents)
            else:
                offs, _ = self.mod.layout(t)
                for o, (et, ev) in zip(offs, v[1]):
                    self._init_const(st, et, ev, off + o, ents)
            return
        val = self.const_val(st, t, v)
        ents.append((K(off), K(self.mod.size(t)), val))

    def const_val(self, st, ty, v):
        k = v[0]
        if k == "int":
            return K(v[1])
        if k == "null":
            return NULL
        if k == "glob":
            key = "@" + v[1]
            if key not in st.mem:
                self.global_region(st, v[1])
            return Ptr(key)
        if k == "zero":
            return self.zero_of(ty)
        if k == "undef":
            from .ir import PTR
            t = self.mod.resolve(ty if ty is not None else PTR)
            if t.k in ("struct", "packed", "arr"):
                return self.zero_of(ty)
            return fresh("undef", defn=("undef",)) if t.k != "ptr" else Ptr(("p", lin.new_sym("undefp", defn=("undef",))))
        if k == "float":
            return V(memo_sym(("float", v[1]), "f" + v[1]))
        if k == "gep":
            base = self.const_val(st, None, v[2][0][1])
            off = base.off
            bt = v[1]
            idx = [(t, self.const_val(st, t, x)) for t, x in v[2][1:]]
            return Ptr(base.b, off + self.gep_off(st, bt, idx))
        if k == "ce":
            a = self.const_val(st, v[2][0][0], v[2][0][1])
            if v[1] in ("ptrtoint",):
                return self.p2i(st, a)
            if v[1] == "inttoptr":
                return self.i2p(st, a)
            if v[1] in ("trunc", "bitcast"):
                return a
            b = self.const_val(st, v[2][1][0], v[2][1][1])
            return a + b if v[1] == "add" else a - b
        if k == "meta":
            return ZERO
        if k == "str":
            return ZERO
        if k == "agg":
            return Agg([self.const_val(st, t, x) for t, x in v[1]])
        raise AnalysisError("const " + repr(v))

    def zero_of(self, ty):
        t = self.mod.resolve(ty)
        if t.k == "ptr":
            return NULL
        if t.k in ("struct", "packed"):
            return Agg([self.zero_of(x) for x in t.a])
        if t.k == "arr":
            return Agg([self.zero_of(t.b)] * t.a)
        return ZERO

    # ------------------------------------------------------------- values
    def val(self, st, ty, v):
        if v[0] == "reg":
            try:
                return st.frames[-1][v[1]]
            except KeyError:
                raise AnalysisError("undefined register %%%s in %s" % (v[1], self.cur[-1]))
        return self.const_val(st, ty, v)

    def p2i(self, st, p):
        if isinstance(p, Lin):
            return p
        p = st.rp(p)
        if p.b == NULLB:
            return p.off
        return addr_sym(p.b) + p.off

    def i2p(self, st, v):
        if isinstance(v, Ptr):
            return v
        v = st.cs.norm(v)
        for s, k in v.t:
            d = SYMS[s].defn
            if k == 1 and d and d[0] == "addr":
                return Ptr(d[1], v - V(s))
        if not v.t:
            return Ptr(NULLB, v)
        return Ptr(("p", memo_sym(("i2p", v), "i2p")))

    def gep_off(self, st, bt, idx):
        """idx: [(ty, Lin)]; first index scales by sizeof(bt)"""
        off = ZERO
        t = bt
        for i, (it, iv) in enumerate(idx):
            if i == 0:
                off = off + iv.scale(self.mod.size(t))
                continue
            t = self.mod.resolve(t)
            if t.k in ("struct", "packed"):
                n = st.const(iv)
                offs, _ = self.mod.layout(t)
                off = off + offs[n]
                t = t.a[n]
            else:
                t = t.b
                off = off + iv.scale(self.mod.size(t))
        return off

    # ---- normalisation of modular integers
    def norm_u(self, st, v, n):
        """-> [(state, Lin in [0,2^n))]"""
        M = 1 << n
        v = st.cs.norm(v)
        if not v.t:
            return [(st, K(v.c % M))]
        if n == 1:
            pass
        cs = st.cs
        ge0 = cs.entails_ge(v)
        lt = cs.entails_ge(-v + (M - 1))
        if ge0 and lt:
            return [(st, v)]
        lo, hi = cs._range(v)
        if (lo is None or lo < -M or hi is None or hi >= 2 * M):
            if not (ge0 or cs.entails_ge(v + M)) or not (lt or cs.entails_ge(-v + (2 * M - 1))):
                # far out of range: modular symbol
                m = self.mod_sym(st, v, M)
                return [(st, m)]
        out = []
        for k in (0, 1, -1):
            w = v + k * M
            if k == 1 and ge0:
                continue
            if k == -1 and lt:
                continue
            s = st.fork()
            if s.cs.add_ge(w) and s.cs.add_ge(-w + (M - 1)):
                out.append((s, w))
        return out

    def mod_sym(self, st, v, M):
        """v mod M as an exact symbol pair"""
        q = memo_sym(("fdiv", v, M), "fdiv")
        r = v - V(q).scale(M)
        st.cs.add_ge(r)
        st.cs.add_ge(-r + (M - 1))
        return r

    def norm_s(self, st, v, n):
        H = 1 << (n - 1)
        M = 1 << n
        v = st.cs.norm(v)
        if not v.t:
            c = v.c % M
            return [(st, K(c - M if c >= H else c))]
        cs = st.cs
        ge = cs.entails_ge(v + H)
        lt = cs.entails_ge(-v + (H - 1))
        if ge and lt:
            return [(st, v)]
        lo, hi = cs._range(v)
        if lo is None or lo < -H - M or hi is None or hi >= H + M:
            if not (ge or cs.entails_ge(v + H + M)) or not (lt or cs.entails_ge(-v + (H + M - 1))):
                m = self.mod_sym(st, v + H, M) - H
                return [(st, m)]
        out = []
        for k in (0, 1, -1):
            w = v + k * M
            if k == 1 and ge:
                continue
            if k == -1 and lt:
                continue
            s = st.fork()
            if s.cs.add_ge(w + H) and s.cs.add_ge(-w + (H - 1)):
                out.append((s, w))
        return out

    def as_int(self, st, v):
        if isinstance(v, Ptr):
            return self.p2i(st, v)
        if isinstance(v, Agg):
            raise AnalysisError("agg as int")
        return v

    # ---- comparisons: -> [(state, 0/1)]
    def icmp(self, st, pred, ty, a, b):
        ty = self.mod.resolve(ty)
        if ty.k == "ptr":
            return self.pcmp(st, pred, a, b)
        a = self.as_int(st, a)
        b = self.as_int(st, b)
        n = ty.a
        res = []
        if pred in ("eq", "ne"):
            for s, x, y in self._pair_eq(st, a, b, n):
                d = x - y
                t = s.fork()
                yes = t.cs.add_eq(d)
                if yes:
                    res.append((t, 1 if pred == "eq" else 0))
                f = s
                if f.cs.add_ne(d):
                    res.append((f, 0 if pred == "eq" else 1))
                    if yes and loose(d):
                        t.exact = f.exact = False
            return res
        if pred[0] == "u":
            pairs = [(s2, x, y) for s1, x in self.norm_u(st, a, n) for s2, y in self.norm_u(s1, b, n)]
        else:
            pairs = [(s2, x, y) for s1, x in self.norm_s(st, a, n) for s2, y in self.norm_s(s1, b, n)]
        op = pred[1:]
        for s, x, y in pairs:
            if op == "gt":
                e = x - y - 1
            elif op == "ge":
                e = x - y
            elif op == "lt":
                e = y - x - 1
            else:
                e = y - x
            t = s.fork()
            yes = t.cs.add_ge(e)
            if yes:
                res.append((t, 1))
            if s.cs.add_ge(-e - 1):
                res.append((s, 0))
                if yes and loose(e):
                    t.exact = s.exact = False
        return res

    def _pair_eq(self, st, a, b, n):
        M = 1 << n
        H = M >> 1
        a = st.cs.norm(a)
        b = st.cs.norm(b)
        cs = st.cs

        def inr(v, lo, hi):
            if not v.t:
                return True
            return cs.entails_ge(v - lo) and cs.entails_ge(-v + (hi - 1))
        if inr(a, -H, H) and inr(b, -H, H) and n > 1:
            def fix(v):
                if not v.t:
                    c = v.c % M
                    return K(c - M if c >= H else c)
                return v
            return [(st, fix(a), fix(b))]
        if a == b:
            return [(st, a, b)]
        return [(s2, x, y) for s1, x in self.norm_u(st, a, n) for s2, y in self.norm_u(s1, b, n)]

    def pcmp(self, st, pred, a, b):
        if isinstance(a, Lin):
            a = self.i2p(st, a)
        if isinstance(b, Lin):
            b = self.i2p(st, b)
        a = st.rp(a)
        b = st.rp(b)
        if pred in ("eq", "ne"):
            outs = self.peq(st, a, b)
            if pred == "ne":
                outs = [(s, 1 - v) for s, v in outs]
            return outs
        # ordering
        x = a.off
        y = b.off
        if a.b != b.b:
            x = self.p2i(st, a)
            y = self.p2i(st, b)
        op = pred[1:]
        e = {"gt": x - y - 1, "ge": x - y, "lt": y - x - 1, "le": y - x}[op]
        res = []
        t = st.fork()
        if t.cs.add_ge(e):
            res.append((t, 1))
        if st.cs.add_ge(-e - 1):
            res.append((st, 0))
        return res

    def peq(self, st, a, b):
        if a.b == b.b:
            d = a.off - b.off
            res = []
            t = st.fork()
            if t.cs.add_eq(d):
                res.append((t, 1))
            if st.cs.add_ne(d):
                res.append((st, 0))
            return res
        ua = isinstance(a.b, tuple)
        ub = isinstance(b.b, tuple)
        if not ua and not ub:
            # distinct concrete bases
            if NULLB in (a.b, b.b):
                n, o = (a, b) if a.b == NULLB else (b, a)
                if st.const(n.off) == 0:
                    return [(st, 0)]
                # compare with a non-zero integer constant such as (void*)-1
                return [(st, 0)]
            return [(st, 0)]
        if ua and not ub:
            a, b = b, a
            ua, ub = ub, ua
        # b undetermined
        res = []
        if a.b == NULLB:
            t = st.fork()
            t.pmap[b.b] = Ptr(NULLB, -b.off + a.off)
            if self.may_null(st, b.b):
                res.append((t, 1))
            self.materialize(st, b.b)
            res.append((st, 0))
            return res
        # a concrete or undetermined, b undetermined
        tt = st.fork()
        if self.may_alias(st, a, b):
            tt.pmap[b.b] = Ptr(a.b, a.off - b.off)
            res.append((tt, 1))
        st.g[("pne", a.b, b.b)] = True
        res.append((st, 0))
        return res

    def may_null(self, st, b):
        return not st.g.get(("nonnull", b))

    def may_alias(self, st, a, b):
        if st.g.get(("pne", a.b, b.b)) or st.g.get(("pne", b.b, a.b)):
            return False
        d = SYMS[b.b[1]].defn if isinstance(b.b, tuple) else None
        if d and d[0] == "noalias":
            return False
        # an unknown external pointer never equals a fresh allocation or a stack slot
        if not isinstance(a.b, tuple):
            r = st.mem.get(a.b)
            if r is not None and r.kind in ("heap", "stack") and not r.a.get("escaped"):
                return False
        return True

    def materialize(self, st, b):
        rid = new_rid()
        name = SYMS[b[1]].name
        r = Region(rid, "ext", name, None, "sym")
        st.mem[rid] = r
        st.pmap[b] = Ptr(rid, ZERO)
        return rid

    def defined(self, st, v, inst):
        """a value that is acted on has been assigned"""
        if isinstance(v, Ptr):
            bad = isinstance(v.b, tuple) and v.b[0] == "p" and lin.SYMS[v.b[1]].defn == ("undef",)
        else:
            bad = isinstance(v, Lin) and any(lin.SYMS[x].defn == ("undef",) for x, k in v.t)
        if bad:
            self.ob(st, "uninit", False, "use of a local variable that was never set", inst)

    # ------------------------------------------------------------- memory
    def deref(self, st, p, inst, what="access"):
        """-> Ptr with a concrete region, or None (state dies, reported)"""
        self.defined(st, p, inst)
        if isinstance(p, Lin):
            p = self.i2p(st, p)
        p = st.rp(p)
        if p.b == NULLB:
            self.ob(st, "null", False, "%s through a null pointer" % what, inst)
            return None
        if isinstance(p.b, tuple):
            self.materialize(st, p.b)
            p = st.rp(p)
        return p

    def check_access(self, st, p, size, inst, what):
        """bounds + liveness obligation; size Lin"""
        r = st.mem.get(p.b)
        if r is None:
            if isinstance(p.b, str) and p.b.startswith("@"):
                self.global_region(st, p.b[1:])
                r = st.mem[p.b]
            else:
                raise AnalysisError("no region %r" % (p.b,))
        if self.access_hook is not None:
            self.access_hook(self, st, p, size, inst, what)
        if not r.live:
            self.ob(st, "uaf", False, "%s of released memory (%s)" % (what, r.name), inst)
            return True
        if r.kind == "func":
            self.ob(st, "bounds", False, "%s of code" % what, inst)
            return False
        if what == "write" and r.kind == "const":
            self.ob(st, "bounds", False, "write to constant %s" % r.name, inst)
            return False
        if r.size is None:
            return True
        lo = st.cs.entails_ge(p.off)
        hi = lo and st.cs.entails_ge(r.size - p.off - size)
        ok = lo and hi
        if not ok and st.cs.entails_eq(size):
            ok = True
        lost = not ok and (lin.vague(p.off) or lin.vague(size) or lin.vague(st.cs.norm(p.off)))
        self.ob(st, "bounds", None if lost else bool(ok), "%s stays inside %s" % (what, r.name), inst,
                detail=None if ok else "offset %s size %s region size %s" %
                (st.cs.norm(p.off), st.cs.norm(size), st.cs.norm(r.size)))
        if not ok:
            # continue under the assumption that it was in bounds
            if not (st.cs.add_ge(p.off) and st.cs.add_ge(r.size - p.off - size)):
                return False
        return True

    def load(self, st, p, ty, inst):
        """-> [(state, value)]"""
        q = self.deref(st, p, inst, "read")
        if q is None:
            return []
        ty = self.mod.resolve(ty)
        n = self.mod.size(ty)
        if not self.check_access(st, q, K(n), inst, "read"):
            return []
        if ty.k in ("struct", "packed", "arr"):
            vals = []
            if ty.k == "arr":
                els = [(i * self.mod.size(ty.b), ty.b) for i in range(ty.a)]
            else:
                els = list(zip(self.mod.layout(ty)[0], ty.a))
            for o, t in els:
                rs = self.load(st, Ptr(q.b, q.off + o), t, inst)
                vals.append(rs[0][1])
            return [(st, Agg(vals))]
        if n == 1 and ty.k == "int":
            r = st.mem[q.b]
            f = r.a.get("skel")
            if f is not None:
                out = []
                for t in f.split(st, q.off):
                    out.append((t, self.read(t, q.b, q.off, n, ty, inst)))
                return out
            f = r.a.get("cstr")
            if f is not None:
                S, P = f
                d = st.cs.norm(P - q.off)
                if d.t and st.cs.entails_ge(d) and st.cs.entails_ge(q.off - S):
                    # a character of a string: its terminator or not
                    out = []
                    t = st.fork()
                    if st.cs.add_ge(d - 1) and not st.cs.bot:
                        v = self.read(st, q.b, q.off, n, ty, inst)
                        if isinstance(v, Lin) and st.cs.add_ne(v) and not st.cs.bot:
                            out.append((st, v))
                    if t.cs.add_eq(d) and not t.cs.bot:
                        v = self.read(t, q.b, q.off, n, ty, inst)
                        if not isinstance(v, Lin) or t.cs.add_eq(v) and not t.cs.bot:
                            out.append((t, v))
                    return out
        return [(st, self.read(st, q.b, q.off, n, ty, inst))]

    def _conv(self, st, v, ty, n):
        if ty.k == "ptr":
            if isinstance(v, Lin):
                return self.i2p(st, v)
            return v
        if isinstance(v, Ptr):
            return self.p2i(st, v)
        return v

    def _fresh_for(self, name, ty, n, lost=True):
        """a new value; lost: one the analysis could not follow"""
        if ty.k == "int":
            v = fresh(name, 0, 1 if ty.a == 1 else (1 << ty.a) - 1)
        else:
            v = fresh(name)
        if lost:
            lin.VAGUE.add(v.t[0][0])
        if ty.k == "ptr":
            return Ptr(("p", v.t[0][0]))
        return v

    def _init_for(self, r, off, ty, n):
        """initial contents of a region cell: one symbol per (region, cell)"""
        root = r.a.get("root", r.rid)
        key = ("init", root, off, n, ty.k)
        if ty.k == "int":
            hi = 1 if ty.a == 1 else (1 << ty.a) - 1
            return V(memo_sym(key, self.cellname(r, off), 0, hi))
        if ty.k == "ptr":
            return Ptr(("p", memo_sym(key, self.cellname(r, off))))
        return V(memo_sym(key, self.cellname(r, off)))

    def cellname(self, r, off):
        off_s = repr(off)
        return "%s[%s]" % (r.name, off_s)

    def read(self, st, rid, off, n, ty, inst=None, depth=0):
        r = st.mem[rid]
        off = st.cs.norm(off)
        N = K(n)
        ents = r.ents
        for i in range(len(ents) - 1, -1, -1):
            eo, es, ev = ents[i]
            d = st.cs.norm(off - eo)
            if not d.t:
                dc = d.c
                if not es.t:
                    if dc >= es.c or dc + n <= 0:
                        continue
                    if dc == 0 and es.c == n and isinstance(ev, (Lin, Ptr)):
                        return self._conv(st, ev, ty, n)
                    if dc >= 0 and dc + n <= es.c:
                        return self.extract(st, ev, dc, n, ty, es.c)
                    return self.compose(st, rid, off, n, ty, inst, depth)
                else:
                    if st.cs.entails_eq(es):
                        continue
                    if dc + n <= 0:
                        continue
                    if dc >= 0 and st.cs.entails_ge(es - (dc + n)):
                        return self.extract(st, ev, dc, n, ty, None, d)
                    if st.cs.entails_ge(-es + dc):
                        continue
            else:
                if st.cs.entails_ge(d - es) or st.cs.entails_ge(-d - n):
                    continue
                if not es.t and es.c == n and st.cs.entails_eq(d) and isinstance(ev, (Lin, Ptr)):
                    return self._conv(st, ev, ty, n)
                if st.cs.entails_ge(d) and st.cs.entails_ge(es - d - n):
                    v = self.extract(st, ev, None, n, ty, None, d)
                    if v is not None:
                        return v
            # may overlap
            v = self._fresh_for(self.cellname(r, off) + "?", ty, n)
            w = st.wreg(rid)
            w.ents = w.ents + ((off, N, v),)
            return v
        if r.default == "zero":
            return NULL if ty.k == "ptr" else ZERO
        for eo, es, ev in r.lazy:
            if es != N:
                continue
            if eo == off or st.cs.entails_eq(eo - off):
                return self._conv(st, ev, ty, n)
        v = None
        if r.default == "undef":
            if self.opts.get("uninit", True) and not depth:
                self.ob(st, "uninit", False, "read of uninitialised memory (%s)" % r.name, inst)
            v = self._fresh_for("undef." + r.name, ty, n, False)
        else:
            f = r.a.get("on_read")
            if f is not None:
                v = f(self, st, rid, off, n, ty)
            if v is None:
                v = self._init_for(r, off, ty, n)
        w = st.wreg(rid)
        w.lazy = w.lazy + ((off, N, v),)
        return v

    def extract(self, st, ev, dc, n, ty, es, d=None):
        """bytes [dc, dc+n) of an entry value"""
        if isinstance(ev, Fill):
            c = st.const(ev.c)
            if c == 0:
                return NULL if ty.k == "ptr" else ZERO
            if n == 1:
                return ev.c
            if c is not None:
                return K(sum(c << (8 * i) for i in range(n)))
            return self._fresh_for("fill", ty, n)
        if isinstance(ev, tuple) and ev[0] == "bytes":
            b = ev[1]
            if dc is None:
                # symbolic index into constant bytes
                if n != 1:
                    return self._fresh_for("cbyte", ty, n)
                if d is None:
                    return fresh("cbyte", min(b), max(b))
                d = st.cs.norm(d)
                lo, hi = st.cs.bounds(d)
                if lo is not None and hi is not None and 0 <= lo <= hi < len(b):
                    part = b[lo:hi + 1]
                    step = part[1] - part[0] if len(part) > 1 else 0
                    if all(part[i + 1] - part[i] == step for i in range(len(part) - 1)):
                        return (d - lo).scale(step) + part[0]      # a run of consecutive characters
                    return V(memo_sym(("cbyte", b, d), "cbyte", min(part), max(part)))
                return V(memo_sym(("cbyte", b, d), "cbyte", min(b), max(b)))
            return K(int.from_bytes(b[dc:dc + n], "little"))
        if isinstance(ev, Copy):
            # re-read from the snapshot
            src = ev.src
            o = ev.off + (d if d is not None else K(dc))
            tmp = st.mem.get(("snap", id(src)))
            key = ("snap", id(src))
            if tmp is None:
                st.mem[key] = src
                s2 = src.copy()
                s2.a = dict(s2.a)
                s2.a.setdefault("root", src.rid)
                s2.rid = key
                st.mem[key] = s2
                self.prov[key] = src     # keep alive
            return self.read(st, key, o, n, ty)
        if isinstance(ev, Havoc):
            if ty.k == "int" and ty.a > 1:
                o = d if d is not None else K(dc)
                return V(memo_sym(("havoc", ev.uid, st.cs.norm(o), n), ev.why, 0, (1 << (8 * n)) - 1))
            return self._fresh_for("havoc", ty, n)
        if isinstance(ev, Ptr):
            ev = self.p2i(st, ev)
        if isinstance(ev, Lin) and dc is not None and es is not None:
            # little endian sub-word
            c = st.const(ev)
            if c is not None:
                return self._conv(st, K(((c % (1 << (8 * es))) >> (8 * dc)) % (1 << (8 * n))), ty, n)
            s = memo_sym(("bytes", ev, es, dc, n), "bytes", 0, (1 << (8 * n)) - 1)
            return self._conv(st, V(s), ty, n)
        return None if dc is None else self._fresh_for("sub", ty, n)

    def compose(self, st, rid, off, n, ty, inst, depth):
        if depth > 0 or n > 16:
            return self._fresh_for("mix", ty, n)
        from .ir import I
        bs = []
        for i in range(n):
            b = self.read(st, rid, off + i, 1, I(8), inst, depth + 1)
            bs.append(b)
        cs = [st.const(b) for b in bs]
        if all(c is not None for c in cs):
            return self._conv(st, K(sum((c % 256) << (8 * i) for i, c in enumerate(cs))), ty, n)
        s = memo_sym(("concat",) + tuple(bs), "concat", 0, (1 << (8 * n)) - 1)
        return self._conv(st, V(s), ty, n)

    def write(self, st, rid, off, n, val):
        """n: Lin; val: Lin/Ptr/Fill/Copy/Havoc"""
        off = st.cs.norm(off)
        w = st.wreg(rid)
        w.nwr += 1
        ents = []
        for eo, es, ev in w.ents:
            d = st.cs.norm(eo - off)
            if not d.t and not es.t and not n.t:
                if d.c >= 0 and d.c + es.c <= n.c:
                    continue        # fully overwritten
            elif not d.t and es == n and d.c == 0:
                continue
            ents.append((eo, es, ev))
        ents.append((off, n, val))
        if "coarse" in w.a and len(ents) > w.a["coarse"]:
            # contents given up on, bounds kept
            ents = [(ZERO, w.size, Havoc("coarse"))]
        w.ents = tuple(ents)
        if "cstr" in w.a:
            w.a = dict(w.a)
            w.a["cstr"] = self._cstr_write(st, w.a["cstr"], off, n, val)
            if w.a["cstr"] is None:
                del w.a["cstr"]
        if "nonul" in w.a:
            keep = tuple((lo, hi) for lo, hi in w.a["nonul"]
                         if st.cs.entails_ge(off - hi) or st.cs.entails_ge(lo - off - n))
            if keep != w.a["nonul"]:
                w.a = dict(w.a)
                w.a["nonul"] = keep
        if "skel" in w.a:
            skel_write(self, st, w, off, n, val)

    def _cstr_write(self, st, fact, off, n, val):
        """update the fact (S, P): no NUL in [S,P), NUL at P"""
        S, P = fact
        if st.cs.entails_ge(off - P - 1) or st.cs.entails_ge(S - off - n):
            return fact
        nc = st.const(n)
        if nc == 1 and isinstance(val, Lin):
            c = st.const(val)
            inside = st.cs.entails_ge(off - S) and st.cs.entails_ge(P - off)
            if c is not None and c % 256 == 0 and inside:
                return (S, off)
            if inside and st.cs.entails_ge(P - off - 1) and \
                    (c is not None and c % 256 or st.cs.entails_ne(val)):
                return fact
        if isinstance(val, tuple) and val[0] == "bytes" and 0 not in val[1] and \
                st.cs.entails_ge(P - off - n):
            return fact
        return None

    def store(self, st, p, ty, v, inst):
        q = self.deref(st, p, inst, "write")
        if q is None:
            return []
        ty = self.mod.resolve(ty)
        n = self.mod.size(ty)
        if not self.check_access(st, q, K(n), inst, "write"):
            return []
        self._store_val(st, q, ty, v)
        return [st]

    def _store_val(self, st, q, ty, v):
        if isinstance(v, Agg):
            ty = self.mod.resolve(ty)
            if ty.k == "arr":
                es = self.mod.size(ty.b)
                for i, x in enumerate(v.v):
                    self._store_val(st, Ptr(q.b, q.off + i * es), ty.b, x)
            else:
                for o, t, x in zip(self.mod.layout(ty)[0], ty.a, v.v):
                    self._store_val(st, Ptr(q.b, q.off + o), t, x)
            return
        self.write(st, q.b, q.off, K(self.mod.size(ty)), v)

    def copy_bytes(self, st, dst, src, n):
        """dst, src concrete Ptrs; n Lin (already checked)"""
        k = st.mem[src.b].a.get("skel") if dst.b != src.b else None
        self._copy_bytes(st, dst, src, n)
        if k is not None:
            skel_copy(self, st, dst, k, src, n)

    def _copy_bytes(self, st, dst, src, n):
        nc = st.const(n)
        sr = st.mem[src.b]
        if nc is not None and nc <= 4096:
            pieces = []
            ok = True
            for eo, es, ev in sr.ents:
                d = st.cs.norm(eo - src.off)
                if d.t or es.t:
                    if st.cs.entails_ge(d - nc) or st.cs.entails_ge(-d - es) or st.cs.entails_eq(es):
                        continue
                    ok = False
                    break
                if d.c >= nc or d.c + es.c <= 0:
                    continue
                if d.c < 0 or d.c + es.c > nc:
                    if isinstance(ev, (Fill,)):
                        a = max(0, d.c)
                        b = min(nc, d.c + es.c)
                        pieces.append((K(a), K(b - a), ev))
                        continue
                    if isinstance(ev, tuple):
                        a = max(0, d.c)
                        b = min(nc, d.c + es.c)
                        pieces.append((K(a), K(b - a), ("bytes", ev[1][a - d.c:b - d.c])))
                        continue
                    ok = False
                    break
                pieces.append((d, es, ev))
            if ok:
                snap = sr
                if sr.default == "zero":
                    self.write(st, dst.b, dst.off, n, Fill(ZERO))
                elif sr.default == "undef":
                    self.write(st, dst.b, dst.off, n, Havoc("undef"))
                else:
                    # cover: default symbolic contents -> snapshot copy
                    covered = sorted((p[0].c, p[1].c) for p in pieces)
                    pos = 0
                    full = True
                    for a, l in covered:
                        if a > pos:
                            full = False
                            break
                        pos = max(pos, a + l)
                    if not full or pos < nc:
                        self.write(st, dst.b, dst.off, n, Copy(snap, src.off, src.b))
                        if not pieces or True:
                            # materialise typed cells lazily through the copy
                            pass
                for d, es, ev in pieces:
                    self.write(st, dst.b, dst.off + d, es, ev)
                return
        if dst.b == src.b:
            self.write(st, dst.b, dst.off, n, Copy(sr, src.off, src.b))
            return
        self.write(st, dst.b, dst.off, n, Copy(sr, src.off, src.b))

    # ------------------------------------------------------------- execution
    def run(self, fname, states, args_of=None):
        """analyse function fname from the given [(state, args)] -> [(state, ret)]"""
        f = self.mod.funcs.get(fname)
        if f is None:
            raise AnalysisError("anchor vanished: function %s is not defined" % fname)
        self.entry = fname
        self.cur = []
        out = []
        for st, args in states:
            out += self.call_func(f, st, args, None)
        return out

    def call_func(self, f, st, args, inst):
        f.analyse()
        if st.depth > 60:
            raise AnalysisError("call depth in " + f.name)
        self.visited.add(f.name)
        fr = {}
        for (ty, name, attr), v in zip(f.params, args):
            if "byval" in attr:
                q = self.deref(st, v, inst)
                t = attr["byval"]
                rid = self.new_region(st, "stack", f.name + "." + name, self.mod.size(t), "undef")
                self.copy_bytes(st, Ptr(rid), q, K(self.mod.size(t)))
                v = Ptr(rid)
            fr[name] = v
        extra = args[len(f.params):]
        st.frames = st.frames + [fr]
        st.depth += 1
        if f.vararg:
            tys = [t for t, _, _ in inst.x["args"][len(f.params):]] if inst is not None else self.opts.get("va_types", ())
            fr["\x00va"] = tuple(extra)
            fr["\x00vasz"] = tuple(self.mod.size(t) for t in tys)
        self.cur.append(f.name)
        try:
            rets = self.exec_fn(f, st)
        finally:
            self.cur.pop()
        out = []
        for s, v in rets:
            fr2 = s.frames[:-1]
            fr2[-1] = dict(fr2[-1])
            s.frames = fr2
            s.depth -= 1
            out.append((s, v))
        return out

    def exec_fn(self, f, st):
        rets = []
        entry = f.rpo[0]
        self.exec_region(f, set(f.rpo), None, entry, [st], rets)
        return rets

    def exec_region(self, f, blocks, header, start, states, rets):
        """run states from `start` inside `blocks`.  Edges to `header` are
        returned as back states; edges leaving `blocks` as exits."""
        pend = {start: list(states)}
        back = []
        exits = {}
        order = sorted(blocks, key=lambda l: f.num[l])
        for l in order:
            ss = pend.pop(l, None)
            if not ss:
                continue
            if l in f.loops and l != header and f.loops[l] <= blocks:
                outs = self.exec_loop(f, l, ss, rets)
                for tgt, lst in outs.items():
                    self._route(f, tgt, lst, blocks, header, pend, back, exits)
                continue
            if len(ss) > self.join_limit:
                ss = self.reduce(ss, f, l)
            for s in ss:
                for tgt, s2 in self.exec_block(f, f.blocks[l], s, rets):
                    self._route(f, tgt, [s2], blocks, header, pend, back, exits)
        return back, exits

    def _route(self, f, tgt, lst, blocks, header, pend, back, exits):
        if tgt == header:
            back.extend(lst)
        elif tgt in blocks:
            pend.setdefault(tgt, []).extend(lst)
        else:
            exits.setdefault(tgt, []).extend(lst)

    def reduce(self, ss, f, l):
        raise Budget("more than %d abstract states at %s/%s" % (self.join_limit, f.name, l))

    def exec_loop(self, f, h, states, rets):
        body = f.loops[h]
        mode = self.loop_mode(f, h)
        if mode == "unroll" or isinstance(mode, int):
            lim = mode if isinstance(mode, int) else self.max_unroll
            exits = {}
            cur = states
            k = conc = 0
            # trips whose exit test is decided (a loop of known length) do not
            # count against the peeling limit
            while cur and k <= lim and conc < 2200:
                if SOFT[0] is not None and time.time() > SOFT[0]:
                    break
                r2 = []
                back, ex = self.exec_region(f, body, h, h, cur, r2)
                rets.extend(r2)
                for t, lst in ex.items():
                    exits.setdefault(t, []).extend(lst)
                if not ex and not r2 and len(back) <= len(cur):
                    conc += 1
                else:
                    k += 1
                cur = back
                if cur and (conc == 12 or k == 3 or k == lim):
                    cur = [s for i, s in enumerate(cur) if i >= 24 or not self.stuck(f, body, h, s)]
            if cur:
                self.incomplete.append((f.name, h, len(cur)))
                if k > lim or conc >= 2200:
                    self.cuts.append(cur[0])
                    del self.cuts[:-8]
            return exits
        from .fix import exec_loop_fix
        return exec_loop_fix(self, f, h, states, rets)

    def stuck(self, f, body, h, st):
        """one more trip of the loop leads back to the very same state: it never ends"""
        n = len(lin.SYMS)
        r2 = []
        back, ex = self.exec_region(f, body, h, h, [st.fork()], r2)
        if ex or r2 or len(back) != 1 or len(lin.SYMS) != n:
            return False
        b = back[0]
        same = True
        for p in f.blocks[h].phis:
            if st.norm(st.frames[-1].get(p.res)) != b.norm(b.frames[-1].get(p.res)):
                same = False
        if same:
            same = set(st.mem) == set(b.mem) and all(st.g.get(k) == b.g.get(k) for k in set(st.g) | set(b.g) if k not in HISTORY)
        if same:
            for rid, r in st.mem.items():
                q = b.mem[rid]
                if q is not r and (q.ents != r.ents or q.live != r.live or q.a != r.a):
                    same = False
                    break
        if same:
            self.ob(st, "progress", False, "every loop makes progress", f.blocks[h].insts[-1])
        return same

    def loop_mode(self, f, h):
        m = self.opts.get("loops", {}).get(f.name)
        if m is not None:
            return m
        return "unroll" if self.mode == "unroll" else "fix"

    def exec_block(self, f, blk, st, rets):
        """-> [(target, state)] (phis of the target already evaluated)"""
        cur = [st]
        label = blk.label
        if HARD[0] is not None and time.time() > HARD[0]:
            raise Budget("out of time in " + f.name)
        for inst in blk.insts:
            op = inst.op
            if op == "br":
                out = []
                if inst.x["c"] is None:
                    for s in cur:
                        out.append((inst.x["t"], s))
                else:
                    for s in cur:
                        c = self.val(s, None, inst.x["c"])
                        for s2, b in self.truth(s, c):
                            tgt = inst.x["t"] if b else inst.x["f"]
                            if inst.dbg:
                                s2.trace = (s2.trace, (inst, b))
                            out.append((tgt, s2))
                return [(t, self.phis(f, label, t, s)) for t, s in out]
            if op == "switch":
                out = []
                n = inst.ty.a
                for s in cur:
                    v = self.as_int(s, self.val(s, inst.ty, inst.ops[0]))
                    rest = [s]
                    for cv, l in inst.x["cases"]:
                        nrest = []
                        for r in rest:
                            for s2, b in self.icmp(r, "eq", inst.ty, v, K(cv)):
                                if b:
                                    s2.trace = (s2.trace, (inst, cv))
                                    out.append((l, s2))
                                else:
                                    nrest.append(s2)
                        rest = nrest
                    for r in rest:
                        r.trace = (r.trace, (inst, "default"))
                        out.append((inst.x["d"], r))
                return [(t, self.phis(f, label, t, s)) for t, s in out]
            if op == "ret":
                for s in cur:
                    v = self.val(s, inst.ty, inst.ops[0]) if inst.ops else None
                    rets.append((s, v))
                return []
            if op == "unreachable":
                return []
            nxt = []
            for s in cur:
                nxt.extend(self.exec_inst(f, inst, s))
            cur = nxt
            if not cur:
                return []
            if len(cur) > self.max_states:
                raise Budget("too many states in " + f.name)
        return []

    def phis(self, f, frm, to, st):
        ph = f.blocks[to].phis
        if not ph:
            return st
        fr = st.frames[-1]
        vals = []
        for p in ph:
            vals.append((p.res, self.val(st, p.ty, p.x["inc"][frm])))
        for r, v in vals:
            fr[r] = v
        return st

    def truth(self, st, c):
        """split on an i1 value"""
        c = st.cs.norm(c)
        if not c.t:
            return [(st, c.c % 2 == 1)]
        out = []
        for s, v in self.norm_u(st, c, 1):
            k = s.const(v)
            if k is not None:
                out.append((s, k == 1))
                continue
            t = s.fork()
            if t.cs.add_eq(v - 1):
                out.append((t, True))
            if s.cs.add_eq(v):
                out.append((s, False))
        return out

    def exec_inst(self, f, inst, st):
        """-> [state]"""
        self.ninst += 1
        op = inst.op
        fr = st.frames[-1]
        if op == "load":
            p = self.val(st, None, inst.ops[0])
            out = []
            for s, v in self.load(st, p, inst.ty, inst):
                s.frames[-1][inst.res] = v
                out.append(s)
            return out
        if op == "store":
            v = self.val(st, inst.ty, inst.ops[0])
            p = self.val(st, None, inst.ops[1])
            return self.store(st, p, inst.ty, v, inst)
        if op == "getelementptr":
            idx = inst.x["idx"]
            p = self.val(st, idx[0][0], idx[0][1])
            if isinstance(p, Lin):
                p = self.i2p(st, p)
            sts = [(st, [])]
            for ty, v in idx[1:]:
                nx = []
                for s, acc in sts:
                    x = self.as_int(s, self.val(s, ty, v))
                    c = s.const(x)
                    if c is not None:
                        n = ty.a
                        c %= 1 << n
                        if c >= 1 << (n - 1):
                            c -= 1 << n
                        nx.append((s, acc + [(ty, K(c))]))
                    else:
                        # an index is a signed value; a size_t above 2^63 wraps
                        # around the address space exactly like a negative one
                        for s2, y in self.norm_idx(s, x, ty.a):
                            nx.append((s2, acc + [(ty, y)]))
                sts = nx
            out = []
            for s, acc in sts:
                s.frames[-1][inst.res] = Ptr(p.b, p.off + self.gep_off(s, inst.x["bt"], acc))
                out.append(s)
            return out
        if op == "icmp":
            a = self.val(st, inst.ty, inst.ops[0])
            b = self.val(st, inst.ty, inst.ops[1])
            self.defined(st, a, inst)
            self.defined(st, b, inst)
            out = []
            for s, v in self.icmp(st, inst.x["pred"], inst.ty, a, b):
                s.frames[-1][inst.res] = K(v)
                out.append(s)
            return out
        if op == "call":
            return self.exec_call(f, inst, st)
        if op == "select":
            c = self.val(st, None, inst.ops[0])
            out = []
            for s, b in self.truth(st, c):
                s.frames[-1][inst.res] = self.val(s, inst.ty, inst.ops[1] if b else inst.ops[2])
                out.append(s)
            return out
        if op == "alloca":
            n = 1
            if inst.x["n"] is not None:
                n = st.const(self.val(st, None, inst.x["n"]))
                if n is None:
                    raise AnalysisError("variable alloca")
            rid = self.new_region(st, "stack", "%s" % inst.res, self.mod.size(inst.ty) * n, "undef")
            fr[inst.res] = Ptr(rid)
            return [st]
        if op in ("zext", "sext"):
            v = self.as_int(st, self.val(st, inst.x["from"], inst.ops[0]))
            n = inst.x["from"].a
            out = []
            for s, w in (self.norm_u if op == "zext" else self.norm_s)(st, v, n):
                s.frames[-1][inst.res] = w
                out.append(s)
            return out
        if op == "trunc":
            fr[inst.res] = self.as_int(st, self.val(st, inst.x["from"], inst.ops[0]))
            return [st]
        if op == "ptrtoint":
            fr[inst.res] = self.p2i(st, self.val(st, None, inst.ops[0]))
            return [st]
        if op == "inttoptr":
            fr[inst.res] = self.i2p(st, self.val(st, None, inst.ops[0]))
            return [st]
        if op in ("bitcast", "freeze"):
            v = self.val(st, inst.ty, inst.ops[0])
            fr[inst.res] = v
            return [st]
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"):
            a = self.as_int(st, self.val(st, inst.ty, inst.ops[0]))
            b = self.as_int(st, self.val(st, inst.ty, inst.ops[1]))
            out = []
            for s, v in self.arith(st, op, a, b, inst.ty.a, inst):
                s.frames[-1][inst.res] = v
                out.append(s)
            return out
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem", "fneg"):
            vs = tuple(self.val(st, inst.ty, o) for o in inst.ops)
            fr[inst.res] = V(memo_sym((op,) + vs, op))
            return [st]
        if op in ("uitofp", "sitofp", "fpext", "fptrunc"):
            fr[inst.res] = V(memo_sym((op, self.val(st, inst.x["from"], inst.ops[0])), op))
            return [st]
        if op in ("fptoui", "fptosi"):
            n = inst.ty.a
            x = self.val(st, inst.x["from"], inst.ops[0])
            v = V(memo_sym((op, x, n), op,
                           0 if op == "fptoui" else -(1 << (n - 1)), (1 << n) - 1 if op == "fptoui" else (1 << (n - 1)) - 1))
            lo, hi = self.frange(st, x)
            if lo is not None:
                st.cs.add_ge(v - int(lo))       # truncation towards zero
            if hi is not None:
                st.cs.add_ge(-v + int(hi))
            fr[inst.res] = v
            return [st]
        if op == "fcmp":
            r = self.fcompare(st, inst.x["pred"], self.val(st, inst.ty, inst.ops[0]), self.val(st, inst.ty, inst.ops[1]))
            if r is not None:
                fr[inst.res] = ONE if r else ZERO
                return [st]
            s2 = st.fork()
            fr[inst.res] = ONE
            s2.frames[-1][inst.res] = ZERO
            return [st, s2]
        if op == "extractvalue":
            v = self.val(st, inst.x["agg"], inst.ops[0])
            for i in inst.x["idx"]:
                v = v.v[i]
            fr[inst.res] = v
            return [st]
        if op == "insertvalue":
            v = self.val(st, inst.ty, inst.ops[0])
            e = self.val(st, None, inst.ops[1])

            def ins(v, idx):
                if not idx:
                    return e
                l = list(v.v)
                l[idx[0]] = ins(l[idx[0]], idx[1:])
                return Agg(l)
            fr[inst.res] = ins(v, inst.x["idx"])
            return [st]
        raise AnalysisError("instruction %s in %s" % (op, f.name))

    def fcompare(self, st, pred, a, b):
        """a comparison of floating-point values with known, separate ranges (finite, so ordered)"""
        if pred in ("true", "false"):
            return pred == "true"
        (al, ah), (bl, bh) = self.frange(st, a), self.frange(st, b)
        if None in (al, ah, bl, bh):
            return None
        if pred in ("ord", "uno"):
            return pred == "ord"
        if al == ah == bl == bh:
            rel = "e"
        elif ah < bl:
            rel = "l"
        elif al > bh:
            rel = "g"
        else:
            return None
        return rel in {"eq": "e", "gt": "g", "ge": "ge", "lt": "l", "le": "le", "ne": "lg"}[pred[1:]]

    def frange(self, st, e, depth=0):
        """interval of a floating-point value, widened for rounding"""
        from fractions import Fraction as F
        if not isinstance(e, Lin) or len(e.t) != 1 or e.c or e.t[0][1] != 1 or depth > 12:
            return None, None
        d = lin.SYMS[e.t[0][0]].defn
        if not isinstance(d, tuple):
            return None, None
        if d[0] == "float":
            t = d[1]
            try:
                if t.startswith("0x"):
                    import struct
                    x = F(struct.unpack(">d", int(t, 16).to_bytes(8, "big"))[0])
                else:
                    x = F(t)
            except (ValueError, OverflowError):
                return None, None
            return x, x
        if d[0] in ("uitofp", "sitofp"):
            lo, hi = st.cs.bounds(d[1])
            if d[0] == "uitofp":
                lo = 0 if lo is None or lo < 0 else lo
            lo, hi = (None if lo is None else F(lo)), (None if hi is None else F(hi))
        elif d[0] in ("fpext", "fptrunc"):
            lo, hi = self.frange(st, d[1], depth + 1)
        elif d[0] in ("fadd", "fsub", "fmul", "fdiv"):
            a, b = self.frange(st, d[1], depth + 1), self.frange(st, d[2], depth + 1)
            if None in a or None in b:
                return None, None
            if d[0] == "fdiv" and b[0] <= 0 <= b[1]:
                return None, None
            c = [{"fadd": lambda x, y: x + y, "fsub": lambda x, y: x - y, "fmul": lambda x, y: x * y,
                  "fdiv": lambda x, y: x / y}[d[0]](x, y) for x in a for y in b]
            lo, hi = min(c), max(c)
            eps = F(1, 2 ** 22 if "float" in d else 2 ** 50)
            lo, hi = lo - abs(lo) * eps, hi + abs(hi) * eps
        else:
            return None, None
        return lo, hi

    def norm_idx(self, st, x, n):
        if n == 64:
            M = 1 << 64
            x = st.cs.norm(x)
            lo, hi = st.cs._range(x)
            if lo is not None and hi is not None and lo > -M and hi < M:
                # keep the mathematical value: offsets are compared against
                # region sizes, a wrapped one is out of range either way
                return [(st, x)]
        return self.norm_s(st, x, n)

    # ---- arithmetic
    def arith(self, st, op, a, b, n, inst=None):
        a = st.cs.norm(a)
        b = st.cs.norm(b)
        M = 1 << n
        if inst is not None and op in ("add", "sub", "mul") and self.opts.get("ovf") and "nsw" in (inst.x.get("fl") or ()):
            out = []
            for s1, x in self.norm_s(st, a, n):
                for s2, y in self.norm_s(s1, b, n):
                    if op == "mul" and x.t and y.t:
                        out += self._arith(s2, op, x, y, n, inst)
                        continue
                    r = s2.cs.norm(x + y if op == "add" else x - y if op == "sub" else x.scale(y.c) if not y.t else y.scale(x.c))
                    H = M >> 1
                    self.ob(s2, "ovf", s2.cs.entails_ge(r + H) and s2.cs.entails_ge(-r + (H - 1)), "signed arithmetic does not overflow", inst,
                            detail="%s %s, %s" % (op, x, y))
                    out.append((s2, r))
            return out
        return self._arith(st, op, a, b, n, inst)

    def _arith(self, st, op, a, b, n, inst):
        M = 1 << n
        if op == "add":
            return [(st, a + b)]
        if op == "sub":
            return [(st, a - b)]
        if op in ("and", "or") and self.opts.get("masks") and (not a.t) != (not b.t):
            return [(st, masked(op, *((a, b.c) if a.t else (b, a.c)), n))]
        if op == "mul":
            if not b.t:
                c = b.c if abs(b.c) < (M >> 1) else (b.c % M)
                return [(st, a.scale(c))]
            if not a.t:
                return [(st, b.scale(a.c))]
            out = []
            nsw = "nsw" in inst.x["fl"] if inst is not None else False
            nf = self.norm_s if nsw else self.norm_u
            for s1, x in nf(st, a, n):
                for s2, y in nf(s1, b, n):
                    if (y.t, y.c) < (x.t, x.c):
                        x, y = y, x
                    lo, hi = s2.cs.bounds(x)
                    lo2, hi2 = s2.cs.bounds(y)
                    k = memo_sym(("mul", x, y), "mul")
                    if None not in (lo, hi, lo2, hi2):
                        ps = [lo * lo2, lo * hi2, hi * lo2, hi * hi2]
                        s2.cs.add_ge(V(k) - min(ps))
                        s2.cs.add_ge(-V(k) + max(ps))
                    out.append((s2, V(k)))
            return out
        if op in ("udiv", "urem"):
            out = []
            for s, x in self.norm_u(st, a, n):
                for s, y in self.norm_u(s, b, n):
                    if not y.t:
                        if y.c == 0:
                            self.ob(s, "div", False, "division by zero", inst)
                            continue
                        q = self.fdiv(s, x, y.c)
                        out.append((s, q if op == "udiv" else x - q.scale(y.c)))
                    else:
                        nz = s.cs.entails_ne(y)
                        self.ob(s, "div", nz, "division by zero", inst)
                        if op == "udiv":
                            q = V(memo_sym(("udiv", x, y), "udiv", 0))
                            s.cs.add_ge(x - q)
                        else:
                            q = V(memo_sym(("urem", x, y), "urem", 0))
                            s.cs.add_ge(y - q - 1)
                            s.cs.add_ge(x - q)
                        out.append((s, q))
            return out
        if op in ("sdiv", "srem"):
            out = []
            for s, x in self.norm_s(st, a, n):
                for s, y in self.norm_s(s, b, n):
                    if not y.t and y.c != 0:
                        for neg in (False, True):
                            t = s.fork()
                            if neg:
                                if not t.cs.add_ge(-x - 1):
                                    continue
                                q = self.fdiv(t, -x, abs(y.c))
                                q = -q if y.c > 0 else q
                            else:
                                if not t.cs.add_ge(x):
                                    continue
                                q = self.fdiv(t, x, abs(y.c))
                                q = q if y.c > 0 else -q
                            out.append((t, q if op == "sdiv" else x - q.scale(y.c)))
                    else:
                        nz = s.cs.entails_ne(y)
                        self.ob(s, "div", nz, "division by zero", inst)
                        q = V(memo_sym((op, x, y), op, -(M >> 1), (M >> 1)))
                        out.append((s, q))
            return out
        if op == "and":
            if not a.t:
                a, b = b, a
            out = []
            if not b.t:
                c = b.c % M
                if c & (c + 1) == 0 and 0 < c < M - 1:      # low mask: reduction modulo a smaller power
                    return self.norm_u(st, a, c.bit_length())
            for s, x in self.norm_u(st, a, n):
                if not b.t:
                    out += self.and_const(s, x, b.c % M, n)
                    continue
                for s2, y in self.norm_u(s, b, n):
                    if (y.t, y.c) < (x.t, x.c):
                        x, y = y, x
                    k = V(memo_sym(("and", x, y), "and", 0, M - 1))
                    s2.cs.add_ge(x - k)
                    s2.cs.add_ge(y - k)
                    bx, by = bits.unfold(s2, x, n), bits.unfold(s2, y, n)
                    if bx is not None and by is not None:
                        both = sum(1 << i for i in range(n) if bx[i] == 1 and by[i] == 1)
                        if both:
                            s2.cs.add_ge(k - both)
                    out.append((s2, k))
            return out
        if op == "or":
            out = []
            for s, x in self.norm_u(st, a, n):
                for s2, y in self.norm_u(s, b, n):
                    if not x.t and not y.t:
                        out.append((s2, K(x.c | y.c)))
                        continue
                    if not x.t and x.c == 0:
                        out.append((s2, y))
                        continue
                    if not y.t and y.c == 0:
                        out.append((s2, x))
                        continue
                    j = None
                    for p, q in ((x, y), (y, x)):
                        hq = s2.cs.bounds(q)[1] if q.t else q.c
                        if hq is not None and q is not None:
                            w = 1 << hq.bit_length()
                            if p.c % w == 0 and all(c % w == 0 for _, c in p.t):
                                j = p + q       # no bit in common
                                break
                    if j is not None:
                        out.append((s2, j))
                        continue
                    if (y.t, y.c) < (x.t, x.c):
                        x, y = y, x
                    k = V(memo_sym(("or", x, y), "or", 0, M - 1))
                    s2.cs.add_ge(k - x)
                    s2.cs.add_ge(k - y)
                    s2.cs.add_ge(x + y - k)
                    # bounded by the next power of two
                    hx = s2.cs._range(x)[1]
                    hy = s2.cs._range(y)[1]
                    if hx is not None and hy is not None and hx >= 0 and hy >= 0:
                        s2.cs.add_ge(-k + ((1 << max(hx.bit_length(), hy.bit_length())) - 1))
                    out.append((s2, k))
            return out
        if op == "xor":
            for x, y in ((a, b), (b, a)):
                if not y.t:
                    c = y.c % M
                    if c == M - 1:
                        return [(st, -x - 1)]
                    if c == 0:
                        return [(st, x)]
            out = []
            for s, x in self.norm_u(st, a, n):
                for s2, y in self.norm_u(s, b, n):
                    cx, cy = s2.const(x), s2.const(y)
                    if cx is not None:
                        x = K(cx)
                    if cy is not None:
                        y = K(cy)
                    if not x.t and not y.t:
                        out.append((s2, K(x.c ^ y.c)))
                        continue
                    if not x.t:
                        x, y = y, x
                    if not y.t:
                        # the digits below the unknown part are known: only the rest stays an exclusive or
                        g = M
                        for _, co in x.t:
                            g = min(g, co & -co)
                        if g > 1:
                            r, hi = x.c % g, y.c // g
                            X = Lin(tuple((v, co // g) for v, co in x.t), (x.c - r) // g)
                            if hi:
                                X = V(memo_sym(("xor", X, K(hi)), "xor", 0, M // g - 1))
                            out.append((s2, X.scale(g) + (r ^ (y.c % g))))
                            continue
                    if (y.t, y.c) < (x.t, x.c):
                        x, y = y, x
                    k = V(memo_sym(("xor", x, y), "xor", 0, M - 1))
                    out.append((s2, k))
            return out
        if op in ("shl", "lshr", "ashr") and inst is not None:
            # an amount that is not below the width has no meaning in C (the obligation is refuted only when that is certain)
            u = self.norm_u(st, b, n) if b.t else [(st, b)]
            for s, y in u:
                ok = True if s.cs.entails_ge(y) and s.cs.entails_ge(-y + (n - 1)) else \
                    False if s.cs.entails_ge(y - n) or s.cs.entails_ge(-y - 1) else None
                self.ob(s, "shift", ok, "a shift by less than the width", inst)
            if len(u) == 1:
                st, b = u[0]
        if op == "shl":
            if not b.t:
                return [(st, a.scale(1 << b.c))]
            if st.const(a) == 1:
                c = V(memo_sym(("shl1", b), "shl", 1, M - 1))
                return [(st, c)]
            return [(st, V(memo_sym(("shl", a, b), "shl", 0, M - 1)))]
        if op == "lshr":
            out = []
            for s, x in self.norm_u(st, a, n):
                if not b.t:
                    out.append((s, self.fdiv(s, x, 1 << b.c)))
                else:
                    k = V(memo_sym(("lshr", x, b), "lshr", 0, M - 1))
                    s.cs.add_ge(x - k)
                    out.append((s, k))
            return out
        if op == "ashr":
            out = []
            for s, x in self.norm_s(st, a, n):
                if not b.t:
                    out.append((s, self.fdiv(s, x, 1 << b.c)))
                else:
                    out.append((s, V(memo_sym(("ashr", x, b), "ashr", -(M >> 1), M >> 1))))
            return out
        raise AnalysisError(op)

    def fdiv(self, st, x, c):
        """floor(x / c), exact"""
        if c == 1:
            return x
        if not x.t:
            return K(x.c // c)
        if all(k % c == 0 for _, k in x.t):
            return Lin(tuple((s, k // c) for s, k in x.t), x.c // c)
        lo, hi = st.cs._range(x)
        q = V(memo_sym(("fdiv", x, c), "div%d" % c))
        st.cs.add_ge(x - q.scale(c))
        st.cs.add_ge(q.scale(c) - x + (c - 1))
        if lo is not None:
            st.cs.add_ge(q - lo // c)
        if hi is not None:
            st.cs.add_ge(-q + hi // c)
        return q

    def and_const(self, st, x, m, n):
        M = 1 << n
        if not x.t:
            return [(st, K(x.c & m))]
        if m == 0:
            return [(st, ZERO)]
        if m == M - 1:
            return [(st, x)]
        if m & (m + 1) == 0:          # low mask
            if st.cs.entails_ge(-x + m):
                return [(st, x)]
            q = self.fdiv(st, x, m + 1)
            return [(st, x - q.scale(m + 1))]
        inv = (~m) % M
        if inv & (inv + 1) == 0:      # alignment mask
            q = self.fdiv(st, x, inv + 1)
            return [(st, q.scale(inv + 1))]
        k = V(memo_sym(("andc", x, m), "and", 0, m))
        st.cs.add_ge(x - k)
        if m & (m - 1) == 0:
            t = st.fork()
            out = []
            if t.cs.add_eq(k):
                out.append((t, ZERO))
            if st.cs.add_eq(k - m):
                out.append((st, K(m)))
            return out
        return [(st, k)]

    # ---- calls
    def exec_call(self, f, inst, st):
        self.callsites += 1
        callee = inst.x["callee"]
        name = None
        if callee[0] == "glob":
            name = callee[1]
        args = []
        for ty, v, attr in inst.x["args"]:
            if v[0] == "meta":
                args.append(None)
                continue
            args.append(self.val(st, ty, v))
        if name is None and callee[0] == "reg":
            p = st.rp(self.val(st, None, callee))
            if isinstance(p.b, str) and p.b.startswith("@"):
                name = p.b[1:]
            else:
                h = self.models.get("*indirect*")
                if h is None:
                    raise AnalysisError("indirect call in " + f.name)
                return self._bind(inst, h(self, st, args, inst, p))
        ov = self.overrides.get(name)
        if ov is not None:
            return self._bind(inst, ov(self, st, args, inst))
        if name in self.mod.funcs:
            g = self.mod.funcs[name]
            return self._bind(inst, self.call_func(g, st, args, inst))
        h = self.models.get(name)
        if h is None and name and name.startswith("llvm."):
            base = name.split(".")
            for i in range(len(base), 1, -1):
                h = self.models.get(".".join(base[:i]))
                if h is not None:
                    break
        if h is None:
            self.unmodelled.add(name)
            h = self.models.get("*default*")
            if h is None:
                raise AnalysisError("no model for external function %s (called by %s)" % (name, f.name))
            return self._bind(inst, h(self, st, args, inst, name))
        return self._bind(inst, h(self, st, args, inst))

    def _bind(self, inst, outs):
        res = []
        for s, v in outs:
            if inst.res is not None:
                s.frames[-1][inst.res] = v
            res.append(s)
        return res

    # ------------------------------------------------------------- reporting
    def fmt_trace(self, tr, limit=24):
        out = []
        for it in tr:
            if isinstance(it, str):
                out.append(it)
                continue
            inst, b = it
            f, l = self.mod.loc(inst.dbg) if inst.dbg else ("?", 0)
            out.append("%s:%d %s" % (f.split("/")[-1], l,
                                     "taken" if b is True else "not taken" if b is False else "case %s" % b))
        if len(out) > limit:
            out = out[:4] + ["..."] + out[-(limit - 5):]
        return out
