"""Linear expressions over integer symbols and the constraint domain.

The numeric abstract domain is a conjunction of linear inequalities over
mathematical integers (a polyhedron), a triangular set of solved equalities and
a set of disequalities.  Emptiness / entailment is decided by Fourier-Motzkin
elimination with integer tightening.  When the elimination grows beyond its
budget the answer is the sound one ("not entailed", "not empty").
"""
from math import gcd

INF = None


class SymInfo:
    __slots__ = ("id", "name", "lo", "hi", "defn")

    def __init__(self, id, name, lo, hi, defn):
        self.id = id
        self.name = name
        self.lo = lo
        self.hi = hi
        self.defn = defn


SYMS = []
_MEMO = {}


def new_sym(name, lo=None, hi=None, defn=None):
    s = SymInfo(len(SYMS), name, lo, hi, defn)
    SYMS.append(s)
    return s.id


def memo_sym(key, name, lo=None, hi=None):
    """Hash-consed symbol: the value of a pure operation on given operands."""
    s = _MEMO.get(key)
    if s is None:
        s = new_sym(name, lo, hi, key)
        _MEMO[key] = s
    return s


class Lin:
    """sum(coef*sym) + c, immutable."""
    __slots__ = ("t", "c", "_h")

    def __init__(self, t, c):
        self.t = t
        self.c = c
        self._h = None

    def __hash__(self):
        h = self._h
        if h is None:
            h = hash((self.t, self.c))
            self._h = h
        return h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self.__eq__(o)

    def is_const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c + o)
        if not o.t:
            return Lin(self.t, self.c + o.c)
        if not self.t:
            return Lin(o.t, self.c + o.c)
        d = dict(self.t)
        for s, k in o.t:
            v = d.get(s, 0) + k
            if v:
                d[s] = v
            else:
                del d[s]
        return Lin(tuple(sorted(d.items())), self.c + o.c)

    __radd__ = __add__

    def __rsub__(self, o):
        return self.scale(-1) + o

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c - o)
        return self + o.scale(-1)

    def __neg__(self):
        return self.scale(-1)

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Lin(tuple((s, v * k) for s, v in self.t), self.c * k)

    def syms(self):
        return [s for s, _ in self.t]

    def coef(self, s):
        for a, k in self.t:
            if a == s:
                return k
        return 0

    def subst(self, m):
        """m: sym -> Lin"""
        hit = False
        for s, _ in self.t:
            if s in m:
                hit = True
                break
        if not hit:
            return self
        acc = {}
        c = self.c
        for s, k in self.t:
            r = m.get(s)
            if r is None:
                acc[s] = acc.get(s, 0) + k
            else:
                c += k * r.c
                for s2, k2 in r.t:
                    acc[s2] = acc.get(s2, 0) + k * k2
        return Lin(tuple(sorted((s, k) for s, k in acc.items() if k)), c)

    def __repr__(self):
        return show(self)


ZERO = Lin((), 0)
ONE = Lin((), 1)


def K(c):
    return Lin((), c)


def V(sym):
    return Lin(((sym, 1),), 0)


def fresh(name, lo=None, hi=None, defn=None):
    return V(new_sym(name, lo, hi, defn))


# values the analysis could not follow (an overlapping cell, an unmodelled
# operation): an obligation that depends on one is undecided, never refuted
VAGUE = set()


def vague(e, depth=0):
    """does e depend on a value the analysis lost?"""
    if not VAGUE:
        return False
    if isinstance(e, Lin):
        return any(_vsym(s, depth) for s, k in e.t)
    return False


def _vsym(s, depth):
    if s in VAGUE:
        return True
    d = SYMS[s].defn
    if depth < 6 and isinstance(d, tuple):
        return any(vague(x, depth + 1) for x in d if isinstance(x, Lin))
    return False


def symname(s):
    return SYMS[s].name


def show(e):
    out = ""
    for s, k in e.t:
        n = symname(s)
        if k == 1:
            p = "+" + n
        elif k == -1:
            p = "-" + n
        else:
            p = "%+d*%s" % (k, n)
        out += p
    if e.c or not out:
        out += "%+d" % e.c
    return out[1:] if out.startswith("+") else out


# --------------------------------------------------------------------------
# Fourier-Motzkin

FM_LIMIT = 600
STATS = {"fm": 0, "fm_giveup": 0}
_CACHE = {}


def _tighten(t, c):
    """sum t + c >= 0 normalised by the gcd of the coefficients."""
    g = 0
    for _, k in t:
        g = gcd(g, k)
        if g == 1:
            return t, c
    if g > 1:
        t = tuple((s, k // g) for s, k in t)
        c = c // g          # floor: integer tightening
    return t, c


def _prep(cons):
    d = {}
    for t, c in cons:
        if not t:
            if c < 0:
                return None
            continue
        t, c = _tighten(t, c)
        o = d.get(t)
        if o is None or c < o:
            d[t] = c
    return d


def infeasible(cons):
    """cons: iterable of (terms, const) meaning sum+const >= 0.
    True only if there is no integer solution."""
    d = _prep(cons)
    if d is None:
        return True
    key = frozenset(d.items())
    r = _CACHE.get(key)
    if r is not None:
        return r
    if len(_CACHE) > 200000:
        _CACHE.clear()
    r = _infeasible(d)
    _CACHE[key] = r
    return r


def _infeasible(d):
    STATS["fm"] += 1
    # symbol bounds
    syms = set()
    for t in d:
        for s, _ in t:
            syms.add(s)
    for s in syms:
        i = SYMS[s]
        if i.lo is not None:
            t = ((s, 1),)
            c = -i.lo
            if t not in d or d[t] > c:
                d[t] = c
        if i.hi is not None:
            t = ((s, -1),)
            c = i.hi
            if t not in d or d[t] > c:
                d[t] = c
    rounds = 0
    while True:
        rounds += 1
        # opposite pairs
        for t, c in d.items():
            n = tuple((s, -k) for s, k in t)
            o = d.get(n)
            if o is not None and c + o < 0:
                return True
        if not d:
            return False
        pos = {}
        neg = {}
        for t in d:
            for s, k in t:
                if k > 0:
                    pos[s] = pos.get(s, 0) + 1
                else:
                    neg[s] = neg.get(s, 0) + 1
        best = None
        bs = None
        onesided = set()
        for s in set(pos) | set(neg):
            p = pos.get(s, 0)
            n = neg.get(s, 0)
            if p == 0 or n == 0:
                onesided.add(s)
                continue
            cost = p * n - p - n
            if best is None or cost < best:
                best = cost
                bs = s
        if onesided:
            d = {t: c for t, c in d.items()
                 if not any(s in onesided for s, _ in t)}
            continue
        if bs is None:
            return False
        P = []
        N = []
        rest = {}
        for t, c in d.items():
            k = 0
            for s, kk in t:
                if s == bs:
                    k = kk
                    break
            if k > 0:
                P.append((t, c, k))
            elif k < 0:
                N.append((t, c, -k))
            else:
                rest[t] = c
        if len(rest) + len(P) * len(N) > FM_LIMIT:
            STATS["fm_giveup"] += 1
            return False
        for t1, c1, k1 in P:
            for t2, c2, k2 in N:
                g = gcd(k1, k2)
                m1 = k2 // g
                m2 = k1 // g
                acc = {}
                for s, k in t1:
                    acc[s] = k * m1
                for s, k in t2:
                    v = acc.get(s, 0) + k * m2
                    if v:
                        acc[s] = v
                    elif s in acc:
                        del acc[s]
                acc.pop(bs, None)
                c = c1 * m1 + c2 * m2
                if not acc:
                    if c < 0:
                        return True
                    continue
                t, c = _tighten(tuple(sorted(acc.items())), c)
                o = rest.get(t)
                if o is None or c < o:
                    rest[t] = c
        d = rest


class Cons:
    """Abstract numeric element.  Copy-on-fork."""
    __slots__ = ("sub", "ine", "neq", "bot", "_ix")

    def __init__(self):
        self.sub = {}       # sym -> Lin   (solved equalities, fully substituted)
        self.ine = ()       # tuple of (terms, const): sum+const >= 0
        self.neq = ()       # tuple of Lin != 0
        self.bot = False
        self._ix = None

    def copy(self):
        c = Cons()
        c.sub = self.sub
        c.ine = self.ine
        c.neq = self.neq
        c.bot = self.bot
        c._ix = self._ix
        return c

    def norm(self, e):
        return e.subst(self.sub) if self.sub else e

    def symbols(self):
        """every symbol something is known about"""
        out = set(self.sub)
        for t, c in self.ine:
            out.update(s for s, k in t)
        for e in self.neq:
            out.update(e.syms())
        return sorted(out)

    # relevant constraints: connected component of the symbols
    def _component(self, syms):
        if self._ix is None:
            ix = {}
            for i, (t, c) in enumerate(self.ine):
                for s, _ in t:
                    ix.setdefault(s, []).append(i)
            self._ix = ix
        ix = self._ix
        seen = set()
        todo = list(syms)
        out = set()
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            for i in ix.get(s, ()):
                if i not in out:
                    out.add(i)
                    for s2, _ in self.ine[i][0]:
                        if s2 not in seen:
                            todo.append(s2)
        return [self.ine[i] for i in sorted(out)]

    def _range(self, e):
        lo = hi = e.c
        for s, k in e.t:
            i = SYMS[s]
            a, b = (i.lo, i.hi) if k > 0 else (i.hi, i.lo)
            if lo is not None:
                lo = None if a is None else lo + k * a
            if hi is not None:
                hi = None if b is None else hi + k * b
        return lo, hi

    def bounds(self, e):
        """interval of e, using the single-variable constraints too"""
        e = self.norm(e)
        lo = hi = e.c
        for s, k in e.t:
            a, b = SYMS[s].lo, SYMS[s].hi
            for t2, c2 in self.ine:
                if len(t2) == 1 and t2[0][0] == s:
                    q = t2[0][1]
                    if q > 0:
                        v = -(c2 // q)            # q*s + c >= 0  ->  s >= ceil(-c/q)
                        a = v if a is None or v > a else a
                    else:
                        v = c2 // (-q)
                        b = v if b is None or v < b else b
            if k < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + k * a
            hi = None if hi is None or b is None else hi + k * b
        return lo, hi

    def entails_ge(self, e):
        """e >= 0 ?"""
        if self.bot:
            return True
        e = self.norm(e)
        if not e.t:
            return e.c >= 0
        lo, hi = self._range(e)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            # definitely negative unless bottom
            return False
        t, c = _tighten(e.t, e.c)
        for t2, c2 in self.ine:
            if t2 == t and c2 <= c:
                return True
        neg = (tuple((s, -k) for s, k in e.t), -e.c - 1)
        comp = self._component(e.syms())
        if infeasible(comp + [neg]):
            return True
        return False

    def entails_eq(self, e):
        e = self.norm(e)
        if not e.t:
            return e.c == 0
        return self.entails_ge(e) and self.entails_ge(-e)

    def entails_ne(self, e):
        e = self.norm(e)
        if not e.t:
            return e.c != 0
        for n in self.neq:
            n = self.norm(n)
            if n == e or n == -e:
                return True
        return self.entails_ge(e - 1) or self.entails_ge(-e - 1)

    def add_ge(self, e):
        """assume e >= 0; returns False if it becomes empty"""
        if self.bot:
            return False
        e = self.norm(e)
        if not e.t:
            if e.c < 0:
                self.bot = True
                return False
            return True
        lo, hi = self._range(e)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            self.bot = True
            return False
        if hi == 0 and len(e.t) == 1:
            return self.add_eq(e)       # at the end of its range
        t, c = _tighten(e.t, e.c)
        # is the negation already entailed? (e <= -1)
        comp = self._component([s for s, _ in t])
        if infeasible(comp + [(t, c)]):
            self.bot = True
            return False
        # redundancy check against an identical direction
        ine = []
        dup = False
        opp = tuple((s, -k) for s, k in t)
        eq = None
        for t2, c2 in self.ine:
            if t2 == t:
                if c2 <= c:
                    dup = True
                    ine.append((t2, c2))
                continue
            if t2 == opp and c2 + c == 0:
                eq = True
                continue
            ine.append((t2, c2))
        if dup:
            return True
        if eq:
            self.ine = tuple(ine)
            self._ix = None
            return self.add_eq(Lin(t, c))
        ine.append((t, c))
        self.ine = tuple(ine)
        self._ix = None
        return self._neq_refresh(set(s for s, _ in t))

    def _neq_refresh(self, syms):
        # d != 0 together with d >= 0 becomes d >= 1
        for n in self.neq:
            nn = self.norm(n)
            if not nn.t:
                if nn.c == 0:
                    self.bot = True
                    return False
                continue
            if len(nn.t) > 2:
                continue
            if syms is not None and not any(s in syms for s, _ in nn.t):
                continue
            if self.entails_ge(nn):
                if not self.entails_ge(nn - 1):
                    if not self.add_ge(nn - 1):
                        return False
            elif self.entails_ge(-nn):
                if not self.entails_ge(-nn - 1):
                    if not self.add_ge(-nn - 1):
                        return False
        return True

    def add_eq(self, e):
        if self.bot:
            return False
        e = self.norm(e)
        if not e.t:
            if e.c != 0:
                self.bot = True
                return False
            return True
        g = 0
        for _, k in e.t:
            g = gcd(g, k)
        if g > 1:
            if e.c % g:
                self.bot = True
                return False
            e = Lin(tuple((s, k // g) for s, k in e.t), e.c // g)
        comp = self._component(e.syms())
        if infeasible(comp + [(e.t, e.c)]) or \
                infeasible(comp + [((-e).t, -e.c)]) or \
                infeasible(comp + [(e.t, e.c), ((-e).t, -e.c)]):
            self.bot = True
            return False
        # solve for a unit-coefficient symbol (newest first)
        piv = None
        for s, k in sorted(e.t, reverse=True):
            if k in (1, -1):
                piv = (s, k)
                break
        if piv is None:
            self.ine = self.ine + ((e.t, e.c), ((-e).t, -e.c))
            self._ix = None
            return True
        s, k = piv
        # k*s + rest = 0 -> s = -rest/k
        rest = e - Lin(((s, k),), 0)
        sol = rest.scale(-k)   # k = +-1
        m = {s: sol}
        nsub = {}
        for a, r in self.sub.items():
            nsub[a] = r.subst(m)
        nsub[s] = sol
        self.sub = nsub
        ine = []
        seen = {}
        pend = []
        i = SYMS[s]
        if i.lo is not None:
            pend.append(sol - i.lo)
        if i.hi is not None:
            pend.append((-sol) + i.hi)
        for t, c in self.ine:
            l = Lin(t, c)
            l2 = l.subst(m)
            if l2 is l:
                ine.append((t, c))
            else:
                pend.append(l2)
        self.ine = tuple(ine)
        self._ix = None
        for l in pend:
            if not l.t:
                if l.c < 0:
                    self.bot = True
                    return False
                continue
            if not self.add_ge(l):
                return False
        return self._neq_refresh(None)

    def add_ne(self, e):
        if self.bot:
            return False
        e = self.norm(e)
        if not e.t:
            if e.c == 0:
                self.bot = True
                return False
            return True
        if self.entails_ge(e):
            return self.add_ge(e - 1)
        if self.entails_ge(-e):
            return self.add_ge(-e - 1)
        if e not in self.neq and -e not in self.neq:
            self.neq = self.neq + (e,)
        return True

    def bounds(self, e):
        """(lo, hi) of e by elimination (None = unbounded)."""
        e = self.norm(e)
        if not e.t:
            return e.c, e.c
        t = new_sym("_t")
        comp = list(self._component(e.syms()))
        le = e - V(t)
        cons = comp + [(le.t, le.c), ((-le).t, -le.c)]
        try:
            return _project(cons, t)
        except OverflowError:
            return self._range(e)


def _project(cons, keep):
    d = _prep(cons)
    if d is None:
        return 1, 0
    syms = set()
    for t in d:
        for s, _ in t:
            syms.add(s)
    for s in syms:
        i = SYMS[s]
        if i.lo is not None:
            t = ((s, 1),)
            if t not in d or d[t] > -i.lo:
                d[t] = -i.lo
        if i.hi is not None:
            t = ((s, -1),)
            if t not in d or d[t] > i.hi:
                d[t] = i.hi
    while True:
        pos = {}
        neg = {}
        for t in d:
            for s, k in t:
                if s == keep:
                    continue
                if k > 0:
                    pos[s] = pos.get(s, 0) + 1
                else:
                    neg[s] = neg.get(s, 0) + 1
        allsyms = set(pos) | set(neg)
        if not allsyms:
            break
        bs = min(allsyms, key=lambda s: pos.get(s, 0) * neg.get(s, 0)
                 - pos.get(s, 0) - neg.get(s, 0))
        P = []
        N = []
        rest = {}
        for t, c in d.items():
            k = 0
            for s, kk in t:
                if s == bs:
                    k = kk
                    break
            if k > 0:
                P.append((t, c, k))
            elif k < 0:
                N.append((t, c, -k))
            else:
                rest[t] = c
        if len(rest) + len(P) * len(N) > FM_LIMIT:
            raise OverflowError
        for t1, c1, k1 in P:
            for t2, c2, k2 in N:
                g = gcd(k1, k2)
                m1 = k2 // g
                m2 = k1 // g
                acc = {}
                for s, k in t1:
                    acc[s] = k * m1
                for s, k in t2:
                    v = acc.get(s, 0) + k * m2
                    if v:
                        acc[s] = v
                    elif s in acc:
                        del acc[s]
                acc.pop(bs, None)
                c = c1 * m1 + c2 * m2
                if not acc:
                    if c < 0:
                        return 1, 0
                    continue
                t, c = _tighten(tuple(sorted(acc.items())), c)
                o = rest.get(t)
                if o is None or c < o:
                    rest[t] = c
        d = rest
    lo = hi = None
    for t, c in d.items():
        (s, k), = t
        if k > 0:
            v = -(c // k) if k == 1 else -(c // k)
            lo = v if lo is None else max(lo, v)
        else:
            v = c // (-k)
            hi = v if hi is None else min(hi, v)
    return lo, hi
