"""Bit provenance of a value: which bit of which input symbol ends up where.

A value of the analysis is a linear expression over value numbers.  unfold()
rewrites it into a vector of bits, each 0, 1 or (symbol, index), following the
definitions recorded for shifts, masks, disjunctions, byte extraction and
concatenation.  Returns None when a value is not a bit permutation."""
from . import lin
from .lin import Lin

ZEROB, ONEB = 0, 1


def _defn(s):
    return lin.SYMS[s].defn


NORM = [False]


def atoms(b):
    """a bit as a disjunction of unknown bits"""
    return b[1] if b[0] == "|" else frozenset((b,))


def unfold(st, e, n, depth=0):
    if NORM[0]:
        e = st.cs.norm(e)
    v = _unfold(st, e, n, depth)
    if v is None and st.cs.entails_ge(e):
        # an opaque value: its bits are known only by position
        w = 64
        if st.cs.entails_ge(-e + ((1 << w) - 1)):
            while w > 0 and st.cs.entails_ge(-e + ((1 << (w - 1)) - 1)):
                w -= 1
            v = [(e, k) if k < w else 0 for k in range(n)]
            if 0 < w <= n and st.cs.entails_ge(e - (1 << (w - 1))):
                v[w - 1] = 1
    return v


def _const(c, n):
    return [(c >> i) & 1 for i in range(n)]


def _sym(st, s, n, depth):
    d = _defn(s)
    if depth > 40:
        return None
    if d is not None and isinstance(d, tuple):
        k = d[0]
        if k == "fdiv" and d[2] > 0 and d[2] & (d[2] - 1) == 0:
            sh = d[2].bit_length() - 1
            x = unfold(st, d[1], n + sh, depth + 1)
            return None if x is None else x[sh:sh + n]
        if k == "andc":
            x = unfold(st, d[1], n, depth + 1)
            if x is None:
                return None
            return [b if (d[2] >> i) & 1 else 0 for i, b in enumerate(x)]
        if k in ("or", "and", "xor"):
            x = unfold(st, d[1], n, depth + 1)
            y = unfold(st, d[2], n, depth + 1)
            if x is None or y is None:
                return None
            out = []
            for a, b in zip(x, y):
                if k == "or":
                    if a == 0 or a == b:
                        out.append(b)
                    elif b == 0:
                        out.append(a)
                    elif a == 1 or b == 1:
                        out.append(1)
                    else:
                        out.append(("|", atoms(a) | atoms(b)))
                elif k == "and":
                    if a == 0 or b == 0:
                        out.append(0)
                    elif a == 1 or a == b:
                        out.append(b)
                    elif b == 1:
                        out.append(a)
                    else:
                        return None
                else:
                    if a == 0:
                        out.append(b)
                    elif b == 0:
                        out.append(a)
                    elif a == b:
                        out.append(0)
                    else:
                        return None
            return out
        if k == "init" and d[3] > 1 and d[3] <= 16:
            out = []
            for i in range(d[3]):
                b = lin.memo_sym(("init", d[1], d[2] + i, 1, "int"), "byte", 0, 255)
                out += [(b, j) for j in range(8)]
            return (out + [0] * n)[:n]
        if k == "bytes":
            _, ev, es, dc, m = d
            x = unfold(st, ev, 8 * es, depth + 1)
            if x is None:
                return None
            x = x[8 * dc:8 * (dc + m)]
            return (x + [0] * n)[:n]
        if k == "concat":
            out = []
            for b in d[1:]:
                x = unfold(st, b, 8, depth + 1)
                if x is None:
                    return None
                out += x
            return (out + [0] * n)[:n]
    lo, hi = st.cs._range(lin.V(s))
    i = lin.SYMS[s]
    if i.hi is not None and (hi is None or i.hi < hi):
        hi = i.hi
    if i.lo is not None and (lo is None or i.lo > lo):
        lo = i.lo
    if lo is None or lo < 0:
        if d is not None:
            return None
        w = n
    elif hi is None:
        w = n
    else:
        w = hi.bit_length()
    return [(s, k) if k < w else 0 for k in range(n)]


def _addv(x, y):
    """disjoint sum"""
    out = []
    for a, b in zip(x, y):
        if a == 0:
            out.append(b)
        elif b == 0:
            out.append(a)
        else:
            return None
    return out


def _unfold(st, e, n, depth):
    if not e.t:
        return _const(e.c % (1 << n), n)
    terms = dict(e.t)
    c = e.c
    acc = [0] * n
    # x*m - (m*c)*fdiv(x, c)  ==  m * (low bits of x)
    for s, k in list(terms.items()):
        d = _defn(s)
        if k >= 0 or not isinstance(d, tuple) or d[0] != "fdiv":
            continue
        if terms.get(s) != k:
            continue
        x, dv = d[1], d[2]
        if dv & (dv - 1) or (-k) % dv:
            continue
        m = (-k) // dv
        if m & (m - 1):
            continue
        # the dividend may have been rewritten since; use the current form
        xs = st.cs.norm(x) if NORM[0] else x
        ok = all(terms.get(s2, 0) == k2 * m for s2, k2 in xs.t) and s not in dict(xs.t)
        if not ok:
            continue
        xb = unfold(st, xs, dv.bit_length() - 1, depth + 1)
        if xb is None:
            return None
        sh = m.bit_length() - 1
        v = ([0] * sh + xb + [0] * n)[:n]
        acc = _addv(acc, v)
        if acc is None:
            return None
        del terms[s]
        for s2, k2 in xs.t:
            del terms[s2]
        c -= xs.c * m
    for s, k in terms.items():
        if k <= 0 or k & (k - 1):
            return None
        sh = k.bit_length() - 1
        x = _sym(st, s, max(0, n - sh), depth + 1)
        if x is None:
            return None
        acc = _addv(acc, ([0] * sh + x)[:n])
        if acc is None:
            return None
    if c % (1 << n):
        acc = _addv(acc, _const(c % (1 << n), n))
    return acc


def vec(st, parts):
    """parts: [(value, width)] least significant first"""
    out = []
    for e, n in parts:
        x = unfold(st, e, n)
        if x is None:
            return None
        out += x
    return out


def sameparts(st, pa, pb, lo=0, hi=None):
    """do two concatenations carry the same bits in [lo, hi)?  The expressions
    are expanded as they were built and, if that does not settle it, in the
    normal form of the state.  True / False / None"""
    res = None
    for m in (False, True):
        NORM[0] = m
        try:
            x, y = vec(st, pa), vec(st, pb)
        finally:
            NORM[0] = False
        if x is None or y is None:
            continue
        if x[lo:hi] == y[lo:hi]:
            return True
        res = False
    return res


def samebyte(st, x, val, k):
    """is x byte number k of val?"""
    res = None
    for m in (False, True):
        NORM[0] = m
        try:
            a, b = unfold(st, x, 8), unfold(st, val, 8 * k + 8)
        finally:
            NORM[0] = False
        if a is None or b is None:
            continue
        if a == b[8 * k:]:
            return True
        res = False
    return res


def same_init(st, a, b):
    """initial contents of the same cell under two names?"""
    if len(a.t) == 1 and len(b.t) == 1 and a.c == 0 and b.c == 0:
        da, db = lin.SYMS[a.t[0][0]].defn, lin.SYMS[b.t[0][0]].defn
        if da and db and da[0] == "init" and db[0] == "init" and da[1] == db[1] and da[3] == db[3]:
            return st.cs.entails_eq(da[2] - db[2])
        if da and db and da[0] == "havoc" and db[0] == "havoc" and da[1] == db[1] and da[3] == db[3]:
            return st.cs.entails_eq(da[2] - db[2])
    return False


def same(st, a, b, n):
    """are the low n bits of a and b the same bits?  True / False / None"""
    if a == b or st.cs.entails_eq(a - b):
        return True
    return sameparts(st, [(a, n)], [(b, n)])


def show(v):
    if v is None:
        return "?"
    return "".join("%s" % (b if isinstance(b, int) else "(%s)" % "|".join(map(str, b[1])) if b[0] == "|" else "%s.%d " % (b[0] if isinstance(b[0], Lin) else lin.SYMS[b[0]].name, b[1])) for b in v[:16])
