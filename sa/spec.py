"""Helpers to state entry states and postconditions of API functions."""
from . import lin
from .lin import Lin, K, V, ZERO, ONE, fresh, memo_sym
from .eng import Engine, State, Ptr, NULL, NULLB, Fill, Copy, Havoc, Agg, AnalysisError, Budget, new_rid, Region
from .ir import I, PTR
from . import models, bits

U8, U16, U32, U64 = 2 ** 8 - 1, 2 ** 16 - 1, 2 ** 32 - 1, 2 ** 64 - 1
I32_MAX = 2 ** 31 - 1
PTRDIFF = 2 ** 63 - 1


class Ctx:
    """one module under analysis"""

    def __init__(self, mod, opts=None, extra_models=None):
        self.mod = mod
        m = dict(models.M)
        m["*default*"] = models.default_ext
        if extra_models:
            m.update(extra_models)
        self.E = Engine(mod, m, opts)
        self.functions = []
        self.nstates = 0
        self.lost = []          # entry functions the analysis gave up on

    # ---- structs
    def ssize(self, name):
        st = self.mod.structs()
        if name not in st:
            raise AnalysisError("anchor vanished: struct %s" % name)
        return st[name][""][1]

    def foff(self, sname, field):
        st = self.mod.structs()
        if sname not in st or field not in st[sname]:
            raise AnalysisError("anchor vanished: field %s.%s" % (sname, field))
        return st[sname][field]

    def new_struct(self, st, sname, name, kind="ext"):
        rid = self.E.new_region(st, kind, name, self.ssize(sname), "sym")
        return Ptr(rid)

    def put(self, st, p, sname, field, val):
        off, n = self.foff(sname, field)
        self.E.write(st, p.b, p.off + off, K(n), val if not isinstance(val, int) else K(val))

    def get(self, st, p, sname, field, ty=None):
        off, n = self.foff(sname, field)
        if ty is None:
            ty = I(8 * n)
        return self.E.read(st, p.b, st.cs.norm(p.off + off), n, ty)

    def getp(self, st, p, sname, field):
        v = self.get(st, p, sname, field, PTR)
        if isinstance(v, Lin):
            v = self.E.i2p(st, v)
        return st.rp(v)

    def rd(self, st, p, off, n):
        return self.E.read(st, p.b, st.cs.norm(p.off + off), n, I(8 * n))

    def sym(self, name, lo=0, hi=U64):
        return fresh(name, lo, hi)

    def cstring(self, st, name, maxlen=PTRDIFF - 1, kind="ext"):
        """a caller string of arbitrary length"""
        L = fresh("len(%s)" % name, 0, maxlen)
        rid = self.E.new_region(st, kind, name, L + 1, "sym")
        st.set_attr(rid, "cstr", (ZERO, L))
        st.set_attr(rid, "param", True)
        w = st.wreg(rid)
        w.ents = w.ents + ((L, ONE, ZERO),)
        return Ptr(rid), L

    def block(self, st, name, size, kind="ext", default="sym"):
        rid = self.E.new_region(st, kind, name, size, default)
        return Ptr(rid)

    # ---- running
    def finish(self, fname, states, kind, msg):
        """run a loop over data of known length: it must come to its end"""
        self.E.cuts = []
        r = self.run(fname, states)
        e, self.E.entry = self.E.entry, fname
        for s in self.E.cuts:
            self.check(s, kind, False, msg)
        self.E.entry = e
        return r

    def leaving(self, st, n):
        """which of n elements a loop body that skips and leaves as st chose gets to see;
        None when the loop did not do what was chosen"""
        c = list(st.g.get("choices", ()))
        seen = []
        for k in range(n):
            if not c:
                return None
            if c.pop(0):
                continue
            seen.append(k)
            if not c:
                return None
            if c.pop(0):
                break
        return None if c else seen

    def aside(self, fname, states):
        """run an accessor for a postcondition; what follows is still about the function before"""
        e = self.E.entry
        r = self.run(fname, states)
        self.E.entry = e
        return r

    def run(self, fname, states):
        if fname not in self.mod.funcs:
            raise AnalysisError("anchor vanished: function %s is not defined in %s" % (fname, self.mod.path))
        self.functions.append(fname)
        try:
            outs = self.E.run(fname, states)
        except (Budget, AnalysisError) as e:
            if "anchor vanished" in str(e):
                raise
            self.lost.append((fname, "%s: %s" % (type(e).__name__, e)))
            self.E.cur = []
            return []
        self.nstates += len(outs)
        self.E.cur = []
        rt = self.mod.resolve(self.mod.funcs[fname].ret)
        if rt.k == "int" and rt.a == 1:
            res = []
            for s, v in outs:
                res += self.E.norm_u(s, v, 1)
            outs = res
        res = []
        for s, v in outs:
            for t in self.settle(s):
                if not models.contradictory(t):
                    res.append((t, v))
        return res

    def settle(self, st):
        """arithmetic is kept unreduced; bring every stored integer into the
        range of its cell (splitting the state where it wrapped)"""
        for rid, r in list(st.mem.items()):
            if r.kind not in ("ext", "heap", "borrowed", "global") or not r.live:
                continue
            for i, (eo, es, ev) in enumerate(r.ents):
                if not isinstance(ev, Lin) or not ev.t or es.t or es.c not in (2, 4, 8):
                    continue
                if len(ev.t) == 1 and ev.c == 0 and ev.t[0][1] == 1:
                    info = lin.SYMS[ev.t[0][0]]
                    if info.lo is None and info.hi is None:
                        continue        # not an integer
                    if info.lo is not None and info.lo >= 0 and info.hi is not None and info.hi < 1 << (8 * es.c):
                        continue
                alts = self.E.norm_u(st, ev, 8 * es.c)
                if len(alts) == 1 and alts[0][0] is st and alts[0][1] == st.cs.norm(ev):
                    continue
                out = []
                for t, v in alts:
                    w = t.wreg(rid)
                    w.ents = w.ents[:i] + ((eo, es, v),) + w.ents[i + 1:]
                    out += self.settle(t)
                return out
        return [st]

    def has(self, fname):
        return fname in self.mod.funcs

    def require(self, *names):
        for n in names:
            if n not in self.mod.funcs:
                raise AnalysisError("anchor vanished: function %s is not defined in %s" % (n, self.mod.path))

    def widths(self, kind, match=lambda n: True):
        """a loop over data of any size counts and indexes in the full width of size_t:
        a counter that is narrower and then widened again (compared with a 64-bit bound,
        or started from a 64-bit position) wraps before it gets there, which no bounded
        number of trips can show"""
        st = State()
        mod = self.mod

        def bits(t):
            t = mod.resolve(t)
            return t.a if t.k == "int" else None
        for fn, f in sorted(mod.funcs.items()):
            if not f.blocks or not match(fn):
                continue
            if fn not in self.functions:
                self.functions.append(fn)
            self.E.visited.add(fn)
            defs = {i.res: i for b in f.blocks.values() for i in list(b.phis) + list(b.insts) if i.res}
            insts = [i for b in f.blocks.values() for i in b.insts]
            self.E.entry = fn
            bad = None
            for i in insts:
                if i.op not in ("zext", "sext") or bits(i.ty) != 64:
                    continue
                seen, todo, phi, cut = set(), [i.ops[0]], False, False
                while todo:
                    o = todo.pop()
                    d = defs.get(o[1]) if o[0] == "reg" else None
                    if d is None or o[1] in seen:
                        continue
                    seen.add(o[1])
                    if d.op == "phi":
                        phi = True
                        todo += list(d.x["inc"].values())
                    elif d.op == "trunc":
                        e = defs.get(d.ops[0][1]) if d.ops[0][0] == "reg" else None
                        w = bits(d.ty) or 0
                        small = e is not None and (e.op in ("zext", "sext") or e.op in ("and", "urem") and
                                                   any(q[0] == "int" and 0 < q[1] <= 2 ** w for q in e.ops))
                        cut = cut or w >= 8 and not small
                    elif d.op in ("add", "sub", "mul", "and", "or", "shl", "lshr", "udiv", "select", "freeze"):
                        todo += [q for q in d.ops if isinstance(q, tuple) and q and q[0] == "reg"]
                if not phi:
                    continue
                wide = False
                for q in insts:
                    if q.op == "icmp" and ("reg", i.res) in q.ops:
                        o = [x for x in q.ops if x != ("reg", i.res)]
                        d = defs.get(o[0][1]) if o and o[0][0] == "reg" else None
                        if o and o[0][0] != "int" and not (d is not None and d.op in ("zext", "sext")):
                            wide = True
                if wide or cut:
                    bad = i
                    break
            self.E.ob(st, kind, bad is None, "loops count in the full width of the sizes they run over", bad,
                      where=None if bad is not None else fn)

    # ---- contents
    def byte(self, st, p, off=ZERO):
        p = st.rp(p)
        return self.E.read(st, p.b, st.cs.norm(p.off + off), 1, I(8))

    def split(self, st, p, off=ZERO, n=1):
        """split st until every written cell either covers byte `off` of p or
        is disjoint from it, so that reading it is exact"""
        p = st.rp(p)
        todo = [(st, 0)]
        out = []
        while todo:
            s, depth = todo.pop()
            o = s.cs.norm(p.off + off)
            r = s.mem.get(p.b)
            alts = None
            for eo, es, ev in reversed(r.ents if r is not None else ()):
                if s.cs.entails_ge(eo - o - n) or s.cs.entails_ge(o - eo - es):
                    continue
                if not (s.cs.entails_ge(o - eo) and s.cs.entails_ge(eo + es - o - n)):
                    alts = [[("ge", eo - o - n)], [("ge", o - eo), ("ge", eo + es - o - n)], [("ge", o - eo - es)]]
                break
            if alts is None or depth > 10:
                out.append(s)
                continue
            todo += [(t, depth + 1) for t, k in cases(s, alts)]
        return out

    def pre(self, st, rid, now=False):
        """the contents region rid had on entry, as a region of its own"""
        key = ("pre", rid)
        if key not in st.mem:
            r = st.mem[rid].copy()
            if not now:
                r.ents = ()
            r.a = dict(r.a)
            r.a.setdefault("root", rid)
            r.a.pop("cstr", None)
            r.rid = key
            r.live = True
            st.mem[key] = r
        return Ptr(key)

    def same(self, st, a, b, n=8):
        a = st.cs.norm(a)
        b = st.cs.norm(b)
        if a == b or st.cs.entails_eq(a - b):
            return True
        if bits.same_init(st, a, b):
            return True
        r = bits.same(st, a, b, n)
        if not r and (lin.vague(a) or lin.vague(b)):
            return None
        return r

    def index(self, st, n, name="j"):
        """an arbitrary index below n; None when n is zero"""
        j = fresh(name, 0)
        if not st.cs.add_ge(n - j - 1):
            return None
        if st.cs.bot:
            return None
        return j

    # ---- postconditions
    def null(self, st, p):
        """is p based on NULL?  then it must be NULL itself"""
        p = st.rp(p)
        if p.b != NULLB:
            return False
        self.check(st, "null", st.eq(p.off), "a missing object is NULL itself, not an offset from it", "%s" % st.cs.norm(p.off))
        return True

    def check(self, st, kind, cond, msg, detail=None):
        """cond: True/False/None"""
        self.E.ob(st, kind, cond, msg, None, detail=detail)
        return cond

    def leaks(self, st, roots, also=()):
        """heap regions still live but not reachable from the roots"""
        seen = set()
        todo = []
        for r in roots:
            if isinstance(r, Ptr):
                r = st.rp(r).b
            if isinstance(r, Agg):
                for x in r.v:
                    if isinstance(x, Ptr):
                        todo.append(st.rp(x).b)
                continue
            if isinstance(r, Lin):
                q = self.E.i2p(st, r)
                r = q.b
            todo.append(r)
        while todo:
            b = todo.pop()
            if b in seen or b not in st.mem:
                continue
            seen.add(b)
            for eo, es, ev in st.mem[b].ents:
                if isinstance(ev, Ptr):
                    todo.append(st.rp(ev).b)
                elif isinstance(ev, Copy):
                    for x in ev.src.ents:
                        if isinstance(x[2], Ptr):
                            todo.append(st.rp(x[2]).b)
        out = []
        for rid, r in st.mem.items():
            if isinstance(rid, int) and r.kind == "heap" and r.live and rid not in seen:
                out.append(r)
        return out


def cases(st, alts):
    """alts: list of lists of ('ge'|'eq'|'ne', Lin).  -> [(state, index)] for the
    feasible ones (used to evaluate a postcondition under its own guard)"""
    out = []
    for i, alt in enumerate(alts):
        t = st.fork()
        ok = True
        for k, e in alt:
            if k == "ge":
                ok = t.cs.add_ge(e)
            elif k == "eq":
                ok = t.cs.add_eq(e)
            else:
                ok = t.cs.add_ne(e)
            if not ok:
                break
        if ok and not t.cs.bot:
            out.append((t, i))
    return out


def choose(E, st, a, inst):
    """a loop body's decision, either way"""
    out = []
    for v in (0, 1):
        t = st.fork()
        t.g["choices"] = t.g.get("choices", ()) + (v,)
        out.append((t, K(v)))
    return out
