"""Delimiter skeletons: a domain for text that a parser cuts at delimiters.

A string is a sequence of pieces: a given character, or a run of one or more
ordinary characters of unknown length and content (none of them a delimiter or
NUL).  The C search functions are decided exactly on such a string as long as
they look for delimiters; anything else is answered with an unknown result."""
from . import lin
from .lin import Lin, K, V, ZERO, ONE, fresh, memo_sym
from .eng import Ptr, NULL, Region
from .ir import I
from . import models


class Skel:
    """pieces from offset base on: ("c", byte) or ("seg", length)"""

    def __init__(self, pieces, delims, base=ZERO):
        self.pieces = list(pieces)
        self.delims = delims        # set of bytes no segment contains
        self.base = base
        self.off = []
        o = base
        for p in self.pieces:
            self.off.append(o)
            o = o + (1 if p[0] == "c" else p[1])
        self.end = o

    def nul(self, st, off):
        """offset of the first NUL at or after off, or None"""
        w = locate(st, self, off)
        if w is None:
            return None
        for i in range(w[0], len(self.pieces)):
            if self.pieces[i] == ("c", 0):
                return self.off[i]
        return None


    def split(self, st, off):
        """cases that settle whether off is still inside its segment"""
        if locate(st, self, off) is not None:
            return [st]
        for o, p in zip(self.off, self.pieces):
            if p[0] == "seg" and st.cs.entails_ge(off - o) and st.cs.entails_ge(o + p[1] - off):
                t = st.fork()
                out = []
                if st.cs.add_ge(o + p[1] - off - 1) and not st.cs.bot:
                    out.append(st)
                if t.cs.add_eq(o + p[1] - off) and not t.cs.bot:
                    out.append(t)
                return out
        return [st]


def make(C, st, name, spec, delims, kind="ext", maxseg=2 ** 31 - 64, minseg=1):
    """spec: list of ints (characters) and strings (names of segments).
    The Skel returned leaves out the terminator"""
    ps = []
    for x in spec:
        if isinstance(x, int):
            ps.append(("c", x))
        elif isinstance(x, str):
            ps.append(("seg", K(minseg) if minseg == maxseg else fresh("len(%s)" % x, minseg, maxseg)))
        else:
            ps.append(("seg", x[1]))
    k = Skel(ps, frozenset(delims))
    rid = C.E.new_region(st, kind, name, k.end + 1, "sym")
    put(C.E, st, rid, k)
    return Ptr(rid), k


def put(E, st, rid, k):
    """region rid (with unknown contents) holds the string k"""
    full = Skel(k.pieces + [("c", 0)], k.delims, k.base)
    w = st.wreg(rid)
    w.a = dict(w.a)
    w.a["cstr"] = (k.base, k.end)
    w.a["skel"] = full
    w.a["on_read"] = on_read
    w.a["param"] = True
    ents = []
    for o, p in zip(k.off, k.pieces):
        if p[0] == "c":
            ents.append((o, ONE, K(p[1])))
    ents.append((k.end, ONE, ZERO))
    w.ents = tuple(ents)
    w.nwr = 0


def of(st, q):
    r = st.mem.get(q.b)
    if r is None:
        return None
    return r.a.get("skel")


def on_write(E, st, w, off, n, val):
    """w (a private copy of the region) was written: follow it"""
    k = w.a["skel"]
    if st.cs.entails_ge(off - k.end) or st.cs.entails_ge(k.base - off - n):
        return
    c = st.const(val) if isinstance(val, Lin) and st.const(n) == 1 else None
    at = locate(st, k, off) if c is not None else None
    w.a = dict(w.a)
    if at is None or at[0] >= len(k.pieces):
        del w.a["skel"]
        return
    c %= 256
    i, d = at
    p = k.pieces[i]
    if p[0] == "c":
        ps = k.pieces[:i] + [("c", c)] + k.pieces[i + 1:]
    else:
        ps = k.pieces[:i] + [("seg", d), ("c", c), ("seg", p[1] - d - 1)] + k.pieces[i + 1:]
        ps = [x for x in ps if x[0] == "c" or not st.cs.entails_eq(x[1])]
    w.a["skel"] = k = Skel(ps, k.delims, k.base)
    z = k.nul(st, k.base)
    if z is not None:
        w.a["cstr"] = (k.base, z)


def on_copy(E, st, dst, k, src, n):
    """n bytes of a string with skeleton k were copied"""
    a = locate(st, k, src.off)
    b = locate(st, k, src.off + n)
    if a is None or b is None:
        return
    ps = []
    for i in range(a[0], min(b[0] + 1, len(k.pieces))):
        p = k.pieces[i]
        if i == b[0] and p[0] == "c":
            break
        if p[0] == "seg":
            lo = a[1] if i == a[0] else ZERO
            hi = b[1] if i == b[0] else p[1]
            p = ("seg", st.cs.norm(hi - lo))
            if st.cs.entails_eq(p[1]):
                continue
        ps.append(p)
    # room for one more character, which usually becomes the terminator
    ps.append(("seg", ONE))
    w = st.wreg(dst.b)
    w.a = dict(w.a)
    w.a["skel"] = k = Skel(ps, k.delims, dst.off)
    z = k.nul(st, k.base)
    if z is not None:
        w.a["cstr"] = (k.base, z)


def on_read(E, st, rid, off, n, ty):
    """a character of a segment: anything but a delimiter or NUL"""
    if n != 1:
        return None
    r = st.mem[rid]
    k = r.a.get("skel")
    v = E._init_for(r, off, ty, n)
    if k is not None and isinstance(v, Lin):
        for o, p in zip(k.off, k.pieces):
            if p[0] == "seg" and st.cs.entails_ge(off - o) and st.cs.entails_ge(o + p[1] - off - 1):
                for d in sorted(k.delims):
                    st.cs.add_ne(v - d)
                st.cs.add_ne(v)
                if r.a.get("ascii"):
                    st.cs.add_ge(K(127) - v)
    return v


def locate(st, k, off):
    """piece containing offset off: (index, offset inside) or (len, 0) at the
    end; None when not determined"""
    off = st.cs.norm(off)
    for i, (o, p) in enumerate(zip(k.off, k.pieces)):
        if st.cs.entails_eq(off - o):
            return i, ZERO
        if p[0] == "seg" and st.cs.entails_ge(off - o) and st.cs.entails_ge(o + p[1] - off - 1):
            return i, st.cs.norm(off - o)
    if st.cs.entails_eq(off - k.end):
        return len(k.pieces), ZERO
    return None


def find(st, k, q, chars):
    """first position at or after q holding one of chars (delimiters):
    (offset, True), (end of string, False), or None when unknown"""
    if not set(chars) <= (k.delims | {0}):
        return None
    w = locate(st, k, q.off)
    if w is None:
        return None
    for i in range(w[0], len(k.pieces)):
        p = k.pieces[i]
        if p[0] == "c" and p[1] == 0:
            return k.off[i], 0 in chars
        if p[0] == "c" and p[1] in chars:
            return k.off[i], True
    return None


def m_strchr(E, st, a, inst):
    nm = inst.x["callee"][1]
    q = E.deref(st, a[0], inst, "string read")
    k = of(st, q) if q is not None else None
    if k is not None and nm in ("strchr", "memchr", "rawmemchr"):
        c = st.const(E.as_int(st, a[1]))
        if c is not None and nm == "strchr":
            c %= 256
            o = find(st, k, q, {c})
            if o is not None:
                return [(st, Ptr(q.b, o[0]) if o[1] else NULL)]
    if k is not None and nm in ("strstr", "strpbrk"):
        if isinstance(a[1], Ptr) and isinstance(st.rp(a[1]).b, str) and st.rp(a[1]).b not in st.mem:
            E.global_region(st, st.rp(a[1]).b[1:])
        b = models.const_string(st, a[1])
        if b is not None and (len(b) == 1 or nm == "strpbrk") and b:
            o = find(st, k, q, set(b))
            if o is not None:
                return [(st, Ptr(q.b, o[0]) if o[1] else NULL)]
        if b is not None and nm == "strstr" and b and set(b) <= k.delims:
            w = locate(st, k, q.off)
            if w is not None:
                seq = [p[1] if p[0] == "c" else None for p in k.pieces]
                for i in range(w[0], len(seq)):
                    if seq[i:i + len(b)] == list(b):
                        return [(st, Ptr(q.b, k.off[i]))]
                    if seq[i] == 0:
                        return [(st, NULL)]
    return models.M["strchr"](E, st, a, inst)


def m_strspn(E, st, a, inst):
    nm = inst.x["callee"][1]
    q = E.deref(st, a[0], inst, "string read")
    k = of(st, q) if q is not None else None
    if k is not None and nm == "strcspn" and isinstance(a[1], Ptr):
        # the set may be chosen between constants: it is a resolved pointer here
        if isinstance(st.rp(a[1]).b, str) and st.rp(a[1]).b not in st.mem:
            E.global_region(st, st.rp(a[1]).b[1:])
        b = models.const_string(st, a[1])
        if b is not None:
            o = find(st, k, q, set(b))
            if o is not None:
                return [(st, st.cs.norm(o[0] - q.off))]
    return models.M["strspn"](E, st, a, inst)


def m_strtoul(E, st, a, inst):
    """digits are ordinary characters: any prefix of the segment at the start"""
    from .models import set_errno, need_cstr
    signed = inst.x["callee"][1] in ("strtol", "strtoll")
    top = 2 ** 63 - 1 if signed else 2 ** 64 - 1
    q = E.deref(st, a[0], inst, "string read")
    if q is None:
        return []
    k = of(st, q)
    w = locate(st, k, q.off) if k is not None else None
    out = []

    def end(s, off):
        e = a[1]
        if isinstance(e, Ptr) and s.rp(e).b != NULL.b:
            e = s.rp(e)
            E.write(s, e.b, e.off, K(8), Ptr(q.b, s.cs.norm(off)))
    if w is None:
        r = need_cstr(E, st, a[0], inst)
        if r is None:
            return []
        n = fresh("digits", 0)
        st.cs.add_ge(r[1] - q.off - n)
        z = st.fork()
        end(st, q.off + n)
        v = fresh("strtoul", 0, top)
        set_errno(E, z)
        end(z, q.off + n)
        return [(st, v), (z, K(top))]
    i, d = w
    z = st.fork()
    end(z, q.off)
    z.g["strtoul"] = (ZERO, q.off, ZERO)
    out.append((z, ZERO))
    if i < len(k.pieces) and k.pieces[i][0] == "seg":
        L = k.off[i] + k.pieces[i][1] - q.off
        for whole in (True, False):
            s = st.fork()
            n = L
            if not whole:
                n = fresh("digits", 1)
                if not s.cs.add_ge(L - n - 1):
                    continue
            v = fresh("strtoul", 0, top)
            s.g["strtoul"] = (v, q.off, s.cs.norm(n))
            if len(a) > 2 and s.const(a[2]) != 10:      # not the number as it is written
                v = fresh("strtoul(other base)", 0, top)
            t = s.fork()
            end(s, q.off + n)
            out.append((s, v))
            t.note("number out of range")
            t.g["strtoul"] = (K(2 ** 64), q.off, t.cs.norm(n))
            set_errno(E, t)
            end(t, q.off + n)
            out.append((t, K(top)))
    return out


SPACE = b" \t\n\v\f\r"


def m_isspace1(E, st, a, inst):
    """whitespace is blanks only (for runs where the kind does not matter)"""
    return m_isspace(E, st, a, inst, True)


def m_isspace(E, st, a, inst, blank=False):
    out = []
    for s, c in E.norm_s(st, E.as_int(st, a[0]), 32):
        if all(s.cs.entails_ne(c - d) for d in SPACE):
            out.append((s, ZERO))
            continue
        t = s.fork()
        if t.cs.add_eq(c - 32) and not t.cs.bot:
            out.append((t, ONE))
        t = s.fork()
        if not blank and t.cs.add_ge(c - 9) and t.cs.add_ge(-c + 13) and not t.cs.bot:
            out.append((t, ONE))
        if all(s.cs.add_ne(c - d) for d in SPACE) and not s.cs.bot:
            out.append((s, ZERO))
    return out


MODELS = {"strchr": m_strchr, "strstr": m_strchr, "strpbrk": m_strchr, "strspn": m_strspn, "strcspn": m_strspn,
          "strtoul": m_strtoul, "strtol": m_strtoul, "strtoull": m_strtoul, "isspace": m_isspace}
