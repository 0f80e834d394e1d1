"""Models of the libc / pthread / system calls the library uses.

Every model returns [(state, value)].  Calls that may fail return both
outcomes; every outcome is annotated on the trace.
"""
from . import lin, bits
from .lin import Lin, K, V, ZERO, ONE, fresh, memo_sym
from .eng import Ptr, NULL, NULLB, Fill, Copy, Havoc, Agg, new_rid, Region

M = {}
INT_MAX = 2 ** 31 - 1


def model(*names):
    def deco(f):
        for n in names:
            M[n] = f
        return f
    return deco


def mem_range(E, st, p, n, inst, what):
    """check an [p, p+n) access; returns concrete Ptr or None; n Lin >= 0.
    A zero-length access touches nothing."""
    if isinstance(p, Lin):
        p = E.i2p(st, p)
    p = st.rp(p)
    if st.cs.entails_eq(n):
        return p
    if p.b == NULLB:
        if st.cs.entails_ge(n - 1):
            E.ob(st, "null", False, "%s through a null pointer" % what, inst)
            return None
        # may be an empty access
        E.ob(st, "null", False, "%s through a null pointer" % what, inst)
        if not st.cs.add_eq(n):
            return None
        return p
    q = E.deref(st, p, inst, what)
    if q is None:
        return None
    if not E.check_access(st, q, n, inst, what):
        return None
    return q


def u64(E, st, v):
    return E.norm_u(st, E.as_int(st, v), 64)


# ----------------------------------------------------------------- heap
def alloc(E, st, size, zero, inst, name, split=True):
    out = []
    if split and not E.opts.get("no_oom"):
        f = st.fork()
        f.note("%s fails" % name)
        f.g[("fail", name)] = f.g.get(("fail", name), 0) + 1
        f.g["allocfail"] = f.g.get("allocfail", 0) + 1
        set_errno(E, f)
        out.append((f, NULL))
    rid = E.new_region(st, "heap", "heap@" + E.where(inst).split(":")[-1], size, "zero" if zero else "undef")
    st.mem[rid].loc = E.where(inst)
    out.append((st, Ptr(rid)))
    return out


def alloc_limit(E, st, n, inst):
    """an allocation never succeeds for more than PTRDIFF_MAX bytes"""
    return st.cs.add_ge(-n + (2 ** 63 - 1))


@model("malloc")
def m_malloc(E, st, a, inst):
    out = []
    for s, n in u64(E, st, a[0]):
        for s2, p in alloc(E, s, n, False, inst, "malloc"):
            if p is NULL or alloc_limit(E, s2, n, inst):
                out.append((s2, p))
    return out


@model("calloc")
def m_calloc(E, st, a, inst):
    out = []
    for s1, n in u64(E, st, a[0]):
        for s2, m in u64(E, s1, a[1]):
            if not m.t:
                tot = n.scale(m.c)
            elif not n.t:
                tot = m.scale(n.c)
            else:
                tot = V(memo_sym(("mul",) + tuple(sorted((n, m), key=lambda x: (x.t, x.c))), "mul", 0))
            for s3, p in alloc(E, s2, tot, True, inst, "calloc"):
                if p is NULL or alloc_limit(E, s3, tot, inst):
                    out.append((s3, p))
    return out


@model("realloc")
def m_realloc(E, st, a, inst):
    out = []
    for s, n in u64(E, st, a[1]):
        p = a[0]
        if isinstance(p, Lin):
            p = E.i2p(s, p)
        p = s.rp(p)
        if p.b != NULLB and isinstance(p.b, tuple):
            E.materialize(s, p.b)
            p = s.rp(p)
        if p.b == NULLB:
            for s2, q in alloc(E, s, n, False, inst, "realloc"):
                if q is NULL or alloc_limit(E, s2, n, inst):
                    out.append((s2, q))
            continue
        check_free(E, s, p, inst, "realloc")
        if not E.opts.get("no_oom"):
            f = s.fork()
            f.note("realloc fails")
            f.g["allocfail"] = f.g.get("allocfail", 0) + 1
            set_errno(E, f)
            out.append((f, NULL))
        old = s.mem[p.b]
        rid = E.new_region(s, "heap", old.name if old.name.endswith("'") else old.name + "'", n, old.default)
        r = s.mem[rid]
        r.ents = old.ents
        r.lazy = old.lazy
        r.loc = E.where(inst)
        r.a = dict(old.a)
        r.a["root"] = old.a.get("root", old.rid)
        r.a["realloc_of"] = p.b
        w = s.wreg(p.b)
        w.live = False
        s.g["realloc"] = s.g.get("realloc", ()) + ((p.b, rid),)
        if alloc_limit(E, s, n, inst):
            out.append((s, Ptr(rid)))
    return out


def check_free(E, st, p, inst, what):
    r = st.mem.get(p.b)
    if r is None:
        r = st.mem[E.global_region(st, p.b[1:])]
    ok = True
    if not r.live:
        E.ob(st, "double-free", False, "%s of memory already released (%s)" % (what, r.name), inst)
        ok = False
    if r.kind in ("stack", "global", "const", "func", "borrowed", "extglobal"):
        E.ob(st, "bad-free", False, "%s of memory the object does not own (%s)" % (what, r.name), inst)
        ok = False
    want = r.a.get("allocbase", ZERO)
    if r.kind in ("heap",) or "allocbase" in r.a:
        okb = st.cs.entails_eq(p.off - want)
        E.ob(st, "bad-free", okb, "%s of the start of the allocation (%s)" % (what, r.name), inst)
    if ok:
        E.ob(st, "double-free", True, "%s of memory already released (%s)" % (what, r.name), inst)
    return ok


@model("free")
def m_free(E, st, a, inst):
    p = a[0]
    if isinstance(p, Lin):
        p = E.i2p(st, p)
    p = st.rp(p)
    if p.b == NULLB:
        return [(st, None)]
    out = []
    if isinstance(p.b, tuple):
        # may be null: freeing it is fine either way
        E.materialize(st, p.b)
        p = st.rp(p)
    if p.b not in st.mem and isinstance(p.b, str):
        E.global_region(st, p.b[1:])
    if check_free(E, st, p, inst, "free"):
        w = st.wreg(p.b)
        w.live = False
        st.g["freed"] = st.g.get("freed", ()) + (p.b,)
    return [(st, None)]


# ----------------------------------------------------------------- errno & co
def errno_rid(E, st):
    if "@errno" not in st.mem:
        st.mem["@errno"] = Region("@errno", "global", "errno", K(4), "sym")
    return "@errno"


def set_errno(E, st, lo=1, hi=133):
    e = fresh("errno", lo, hi)
    E.write(st, errno_rid(E, st), ZERO, K(4), e)
    st.g["errno_set"] = True
    return e


def get_errno(E, st):
    from .ir import I
    return E.read(st, errno_rid(E, st), ZERO, 4, I(32))


@model("__errno_location")
def m_errno(E, st, a, inst):
    errno_rid(E, st)
    return [(st, Ptr("@errno"))]


@model("__assert_fail", "abort", "exit", "_Exit", "_exit")
def m_noreturn(E, st, a, inst):
    return []


@model("llvm.va_start", "llvm.va_end", "llvm.va_copy", "llvm.lifetime.start", "llvm.lifetime.end",
       "llvm.assume", "llvm.dbg.label")
def m_va(E, st, a, inst):
    name = inst.x["callee"][1]
    if name.startswith("llvm.va_start"):
        q = E.deref(st, a[0], inst)
        va = st.frames[-1].get("\x00va", ())
        szs = st.frames[-1].get("\x00vasz", ())
        rid = E.new_region(st, "ext", "varargs", 8 * len(va), "undef")
        for i, v in enumerate(va):
            E.write(st, rid, K(8 * i), K(szs[i] if i < len(szs) else 8), v)
        st.g["va_open"] = st.g.get("va_open", ()) + ((q.b, q.off),)
        E.write(st, q.b, q.off, K(4), K(48))
        E.write(st, q.b, q.off + 4, K(4), K(304))
        E.write(st, q.b, q.off + 8, K(8), Ptr(rid))
        E.write(st, q.b, q.off + 16, K(8), NULL)
        st.set_attr(q.b, ("va", q.off), "started")
    elif name.startswith("llvm.va_copy"):
        d = E.deref(st, a[0], inst)
        s = E.deref(st, a[1], inst)
        E.copy_bytes(st, d, s, K(24))
        st.set_attr(d.b, ("va", d.off), "started")
    elif name.startswith("llvm.va_end"):
        q = E.deref(st, a[0], inst)
        st.set_attr(q.b, ("va", q.off), "ended")
    return [(st, None)]


@model("llvm.threadlocal.address")
def m_tls(E, st, a, inst):
    return [(st, a[0])]


@model("llvm.fmuladd")
def m_fma(E, st, a, inst):
    return [(st, V(memo_sym(("fma",) + tuple(a), "fma")))]


def use_va(E, st, ap, inst):
    """a va_list is consumed by a v*printf call"""
    q = E.deref(st, ap, inst, "va_list")
    if q is None:
        return
    s = st.mem[q.b].a.get(("va", q.off))
    if s == "used":
        E.ob(st, "va", False, "va_list used again after being consumed", inst)
    elif s == "ended":
        E.ob(st, "va", False, "va_list used after va_end", inst)
    elif s == "started":
        E.ob(st, "va", True, "va_list used again after being consumed", inst)
    elif s is None and st.mem[q.b].kind == "stack":
        E.ob(st, "va", False, "va_list used without va_start", inst)
    st.set_attr(q.b, ("va", q.off), "used")


# ----------------------------------------------------------------- memory blocks
@model("llvm.memcpy", "memcpy", "llvm.memmove", "memmove")
def m_memcpy(E, st, a, inst):
    nm = inst.x["callee"][1]
    out = []
    for s, n in u64(E, st, a[2]):
        d = mem_range(E, s, a[0], n, inst, "write")
        if d is None:
            continue
        q = mem_range(E, s, a[1], n, inst, "read")
        if q is None:
            continue
        ret = a[0]
        if s.cs.entails_eq(n):
            out.append((s, ret))
            continue
        if isinstance(d.b, tuple) or isinstance(q.b, tuple) or NULLB in (d.b, q.b):
            out.append((s, ret))
            continue
        if "memcpy" in nm and d.b == q.b:
            x = d.off - q.off
            same = s.cs.entails_eq(x) and nm.startswith("llvm.")
            ok = same or s.cs.entails_ge(x - n) or s.cs.entails_ge(-x - n)
            E.ob(s, "overlap", ok, "memcpy between overlapping ranges", inst)
        cs = s.mem[q.b].a.get("cstr")
        E.copy_bytes(s, d, q, n)
        if cs is not None and d.b != q.b:
            # the copied range carries the terminator along
            S, P = cs
            if s.cs.entails_ge(q.off - S) and s.cs.entails_ge(P - q.off):
                if s.cs.entails_ge(q.off + n - P - 1):
                    s.set_attr(d.b, "cstr", (d.off, d.off + P - q.off))
                else:
                    s.set_attr(d.b, "nonul", s.mem[d.b].a.get("nonul", ()) + ((d.off, d.off + n),))
        s.g["copied"] = s.g.get("copied", ()) + ((d.b, d.off, q.b, q.off, n),)
        out.append((s, ret))
    return out


@model("llvm.memset", "memset")
def m_memset(E, st, a, inst):
    out = []
    for s, n in u64(E, st, a[2]):
        d = mem_range(E, s, a[0], n, inst, "write")
        if d is None:
            continue
        if not s.cs.entails_eq(n) and not isinstance(d.b, tuple) and d.b != NULLB:
            c = s.const(E.as_int(s, a[1]))
            E.write(s, d.b, d.off, n, Fill(K(c % 256) if c is not None else fresh("fill", 0, 255)))
        out.append((s, a[0]))
    return out


def cmp_const(E, st, a, inst):
    """comparison with a constant text of at most 16 characters, one character at a time; None: not such a call"""
    nm = inst.x["callee"][1]
    if nm not in ("memcmp", "strcmp", "strncmp"):
        return None
    from .spec import cases
    from .ir import I
    lits = []
    for p in a[:2]:
        q = st.rp(p) if isinstance(p, Ptr) else None
        if q is not None and isinstance(q.b, str) and q.b.startswith("@") and q.b not in st.mem:
            E.global_region(st, q.b[1:])
        lits.append(const_string(st, p))
    if (lits[0] is None) == (lits[1] is None):
        return None
    k = 0 if lits[0] is not None else 1
    lit = lits[k] + b"\0"
    if len(lit) > 17:
        return None
    n = len(lit)
    if nm != "strcmp":
        c = st.const(E.as_int(st, a[2]))
        if c is None or nm == "memcmp" and c > len(lit):
            return None
        n = min(n, c % 2 ** 64)
    q = E.deref(st, a[1 - k], inst, "comparison")
    if q is None:
        return []
    sgn = 1 if k == 1 else -1
    out = []
    todo = [(st, 0)]
    while todo:
        s, i = todo.pop()
        if i == n or (i > 0 and nm != "memcmp" and lit[i - 1] == 0):
            out.append((s, ZERO))
            continue
        at = s.cs.norm(q.off + i)
        sk = s.mem[q.b].a.get("skel")
        ss = sk.split(s, at) if sk is not None else [s]
        for t in ss:
            E.check_access(t, Ptr(q.b, at), ONE, inst, "read")
            v = E.read(t, q.b, at, 1, I(8), inst)
            for u, x in E.norm_u(t, E.as_int(t, v), 8):
                for w, j in cases(u, [[("eq", x - lit[i])], [("ge", x - lit[i] - 1)], [("ge", K(lit[i] - 1) - x)]]):
                    if j == 0:
                        todo.append((w, i + 1))
                    else:
                        lo, hi = (1, 255) if (j == 1) == (sgn == 1) else (-255, -1)
                        out.append((w, fresh(nm, lo, hi)))
    return out


@model("memcmp", "strcmp", "strncmp", "strcasecmp", "strncasecmp")
def m_cmp(E, st, a, inst):
    nm = inst.x["callee"][1]
    r = cmp_const(E, st, a, inst)
    if r is not None:
        return r
    if nm == "memcmp":
        out = []
        for s, n in u64(E, st, a[2]):
            if mem_range(E, s, a[0], n, inst, "read") is None:
                continue
            if mem_range(E, s, a[1], n, inst, "read") is None:
                continue
            p, q = s.norm(a[0]), s.norm(a[1])
            if s.cs.entails_eq(n) or p == q:
                out.append((s, ZERO))
                continue
            t = s.fork()
            t.note("memcmp finds the ranges equal")
            t.g["eqr"] = t.g.get("eqr", ()) + ((p, q, s.cs.norm(n)),)
            out.append((t, ZERO))
            s.note("memcmp finds the ranges different")
            s.g["ner"] = s.g.get("ner", ()) + ((p, q, s.cs.norm(n)),)
            r = fresh("memcmp", -255, 255)
            s.cs.add_ne(r)
            if s.cs.add_ge(n - 1):
                out.append((s, r))
        return out
    for p in a[:2]:
        if need_cstr(E, st, p, inst) is None:
            return []
    p, q = st.norm(a[0]), st.norm(a[1])
    return [(st, V(memo_sym((nm, p, q) + tuple(a[2:]), nm, -255, 255)))]


# ----------------------------------------------------------------- strings
def cstr_of(E, st, q):
    """(offset of terminating NUL) for the string at concrete Ptr q, or None"""
    r = st.mem[q.b]
    f = r.a.get("skel")
    if f is not None:
        z = f.nul(st, q.off)
        if z is not None:
            return z
    f = r.a.get("cstr")
    if f is not None:
        S, P = f
        if st.cs.entails_ge(q.off - S) and st.cs.entails_ge(P - q.off):
            return P
    c = st.const(q.off)
    if c is not None:
        for eo, es, ev in r.ents:
            if isinstance(ev, tuple) and ev[0] == "bytes" and eo.is_const():
                b = ev[1]
                k = c - eo.c
                if 0 <= k < len(b):
                    z = b.find(0, k)
                    if z >= 0:
                        return K(eo.c + z)
    # explicit NUL cell
    best = None
    if r.size is not None and r.default == "zero" and c is not None and st.cs.entails_ge(r.size - q.off - 1):
        if all(st.cs.entails_ge(eo - q.off - 1) or st.cs.entails_ge(q.off - eo - es) or
               isinstance(ev, Fill) and st.const(ev.c) == 0 for eo, es, ev in r.ents):
            return q.off
    for i, (eo, es, ev) in enumerate(r.ents):
        if isinstance(ev, Fill) and st.const(ev.c) == 0 and st.cs.entails_ge(q.off - eo) and st.cs.entails_ge(eo + es - q.off - 1) \
                and all(st.cs.entails_ge(o - q.off - 1) or st.cs.entails_ge(q.off - o - n) for o, n, _ in r.ents[i + 1:]):
            return q.off
        if isinstance(ev, Lin) and st.const(ev) == 0 and st.const(es) == 1:
            if st.cs.entails_ge(eo - q.off) and all(st.cs.entails_ge(o - eo - 1) or st.cs.entails_ge(eo - o - n)
                                                    for o, n, _ in r.ents[i + 1:]):
                best = eo
    for lo, hi in r.a.get("nonul", ()):
        if st.cs.entails_ge(q.off - lo) and st.cs.entails_ge(hi - q.off) and \
                (r.size is None or st.cs.entails_ge(r.size - hi - 1)):
            from .ir import I
            if st.const(E.read(st.fork(), q.b, hi, 1, I(8))) == 0:
                return hi
    z = r.a.get("nonul0")
    if best is not None and z is not None and st.cs.entails_ge(q.off - z[0]) and st.cs.entails_ge(z[1] - best):
        # everything the region held at first in [q, best) is not NUL
        for eo, es, ev in r.ents:
            if st.cs.entails_ge(q.off - eo - es) or st.cs.entails_ge(eo - best):
                continue
            if isinstance(ev, Lin) and st.const(es) == 1 and st.cs.entails_ne(ev):
                continue
            break
        else:
            st.set_attr(q.b, "cstr", (q.off, best))
            return best
    if best is not None:
        P = fresh("nul", None, None)
        st.cs.add_ge(P - q.off)
        st.cs.add_ge(best - P)
        for lo, hi in r.a.get("nonul", ()):
            if st.cs.entails_eq(lo - q.off):
                st.cs.add_ge(P - hi)
        st.set_attr(q.b, "cstr", (q.off, st.cs.norm(P)))
        return st.cs.norm(P)
    return None


def need_cstr(E, st, p, inst, what="read"):
    """the argument must be a NUL-terminated string: -> (Ptr, nulpos) or None"""
    q = E.deref(st, p, inst, "string read")
    if q is None:
        return None
    r = st.mem.get(q.b)
    if r is None:
        E.global_region(st, q.b[1:])
        r = st.mem[q.b]
    if not r.live:
        E.ob(st, "uaf", False, "read of released memory (%s)" % r.name, inst)
    P = cstr_of(E, st, q)
    if P is None:
        if r.kind in ("ext", "extglobal") or r.a.get("trusted"):
            P = fresh(r.name + ".end", None, None)
            st.cs.add_ge(P - q.off)
            for lo, hi in r.a.get("nonul", ()):
                if st.cs.entails_ge(q.off - lo) and st.cs.entails_ge(hi - q.off):
                    st.cs.add_ge(P - hi)
            if r.size is not None:
                st.cs.add_ge(r.size - P - 1)
            if st.cs.bot:
                E.ob(st, "cstr", False, "string argument is NUL terminated (%s)" % r.name, inst)
                return None
            st.set_attr(q.b, "cstr", (q.off, P))
        else:
            E.ob(st, "cstr", False, "string argument is NUL terminated (%s)" % r.name, inst,
                 detail="offset %s" % st.cs.norm(q.off))
            P = fresh(r.name + ".end", None, None)
            st.cs.add_ge(P - q.off)
            if r.size is not None:
                st.cs.add_ge(r.size - P - 1)
    else:
        E.ob(st, "cstr", True, "string argument is NUL terminated (%s)" % r.name, inst)
    if r.size is not None:
        # the string must start inside the region
        E.check_access(st, q, P - q.off + 1, inst, "read")
    return q, P


@model("strlen")
def m_strlen(E, st, a, inst):
    r = need_cstr(E, st, a[0], inst)
    if r is None:
        return []
    q, P = r
    n = st.cs.norm(P - q.off)
    st.cs.add_ge(n)
    st.cs.add_ge(-n + (2 ** 63 - 2))
    return [(st, n)]


@model("strchr", "strrchr", "strstr", "strpbrk")
def m_strchr(E, st, a, inst):
    nm = inst.x["callee"][1]
    r = need_cstr(E, st, a[0], inst)
    if r is None:
        return []
    q, P = r
    if nm in ("strstr", "strpbrk"):
        r2 = need_cstr(E, st, a[1], inst)
        if r2 is None:
            return []
        q2, P2 = r2
        need = st.cs.norm(P2 - q2.off) if nm == "strstr" else ONE
    else:
        need = ONE
    out = []
    lit = const_string(st, Ptr(q.b, q.off)) if nm == "strchr" else None
    if lit is not None and len(set(lit)) <= 16:
        # a constant set: one case per character
        for s, c in E.norm_u(st, E.as_int(st, a[1]), 8):
            for d in sorted(set(lit) | {0}):
                t = s.fork()
                if t.cs.add_eq(c - d) and not t.cs.bot:
                    o = len(lit) if d == 0 else lit.index(bytes([d]))
                    out.append((t, Ptr(q.b, st.cs.norm(q.off + o))))
                if not s.cs.add_ne(c - d) or s.cs.bot:
                    s = None
                    break
            if s is not None:
                s.note("strchr finds nothing")
                out.append((s, NULL))
        return out
    if nm == "strchr" and st.const(E.as_int(st, a[1])) is None:
        return strchr_sym(E, st, q, P, a, inst)
    hk = ("hit", nm, q.b, st.mem[q.b].nwr, st.cs.norm(q.off), repr(st.norm(a[1])))
    known = st.g.get(hk)
    if known is not True:
        f = st.fork()
        f.note("%s finds nothing" % nm)
        f.g[hk] = False
        f.g["nohit"] = f.g.get("nohit", ()) + ((nm, q),)
        out.append((f, NULL))
    if known is False:
        return out
    st.g[hk] = True
    cv = None
    if nm in ("strchr", "strrchr"):
        cv = st.const(E.as_int(st, a[1]))
        if cv == 0:
            return [(st, Ptr(q.b, P))]
        if cv is None and nm == "strchr":
            return strchr_sym(E, st, q, P, a, inst)
        if cv is None:
            need = ZERO
    key = ("found", nm, q.b, st.mem[q.b].nwr, st.cs.norm(q.off), repr(st.norm(a[1])))
    i = V(memo_sym(key, nm))
    if st.cs.add_ge(i - q.off) and st.cs.add_ge(P - i - need):
        if cv is not None and nm == "strchr":
            c = K(cv % 256)
            E_read_note(E, st, q.b, i, c)
        st.g["found"] = st.g.get("found", ()) + ((nm, q, st.norm(Ptr(q.b, i)), cv),)
        out.append((st, Ptr(q.b, i)))
    return out


def E_read_note(E, st, rid, off, c):
    """record that the cell at off currently holds byte c (a refinement, not a write)"""
    from .ir import I
    v = E.read(st, rid, off, 1, I(8))
    st.cs.add_eq(v - c)


def charkey(st, c):
    return repr(st.cs.norm(c))


def member(st, lst, c):
    """is the character in the set string at lst? True / False / None"""
    lst = st.norm(lst)
    for l, v, r in st.g.get("member", ()):
        if l == lst and (st.cs.norm(v) == st.cs.norm(c) or st.cs.entails_eq(v - c) or
                         bits.same_init(st, st.cs.norm(v), st.cs.norm(c))):
            return r
    return None


def contradictory(st):
    """one character found to be in a set and not in it: no execution gets here"""
    m = st.g.get("member", ())
    if len(m) < 2:
        return False
    m = [(l, st.cs.norm(v), r) for l, v, r in m]
    for i, (l, v, r) in enumerate(m):
        for l2, v2, r2 in m[i + 1:]:
            if r != r2 and l == l2 and (v == v2 or bits.same_init(st, v, v2)):
                return True
    return False


def congruent(st):
    """initial contents of one cell known under several names are equal; False: they cannot be"""
    seen = {}
    vs = list(st.cs.symbols())
    for x in vs:
        d = lin.SYMS[x].defn
        if d and d[0] == "init":
            seen.setdefault((d[1], d[3]), []).append((x, d[2]))
    for l in seen.values():
        for i, (x, o) in enumerate(l[:16]):
            for y, o2 in l[i + 1:16]:
                if st.cs.entails_eq(o - o2) and (not st.cs.add_eq(V(x) - V(y)) or st.cs.bot):
                    return False
    return True


def add_member(st, lst, c, r):
    st.g["member"] = st.g.get("member", ()) + ((st.norm(lst), st.cs.norm(c), r),)


def strchr_sym(E, st, q, P, a, inst):
    """strchr with an unknown character: terminator, in the set, or not in it"""
    out = []
    for s, c in E.norm_u(st, E.as_int(st, a[1]), 8):
        z = s.fork()
        if z.cs.add_eq(c):
            out.append((z, Ptr(q.b, P)))
        if not s.cs.add_ne(c):
            continue
        k = member(s, q, c)
        if k is not True:
            f = s.fork()
            f.note("strchr finds nothing")
            add_member(f, q, c, False)
            out.append((f, NULL))
        if k is not False:
            i = V(memo_sym(("found", "strchr", q.b, s.mem[q.b].nwr, s.cs.norm(q.off), charkey(s, c)), "strchr"))
            add_member(s, q, c, True)
            if s.cs.add_ge(i - q.off) and s.cs.add_ge(P - i - 1):
                out.append((s, Ptr(q.b, i)))
    return out


@model("strspn", "strcspn")
def m_strspn(E, st, a, inst):
    from .ir import I
    nm = inst.x["callee"][1]
    r = need_cstr(E, st, a[0], inst)
    if r is None:
        return []
    r2 = need_cstr(E, st, a[1], inst)
    if r2 is None:
        return []
    q, P = r
    lst = r2[0]
    n = V(memo_sym((nm, q.b, st.mem[q.b].nwr, st.cs.norm(q.off), st.norm(lst)), nm, 0, 2 ** 63 - 1))
    out = []
    t = st.fork()
    if t.cs.add_eq(P - q.off - n):
        t.g["span"] = t.g.get("span", ()) + ((nm, q, n, lst),)
        out.append((t, n))
    if st.cs.add_ge(P - q.off - n - 1):
        c = E.read(st, q.b, st.cs.norm(q.off + n), 1, I(8))
        if st.cs.add_ne(c):
            add_member(st, lst, c, nm == "strcspn")
            st.g["span"] = st.g.get("span", ()) + ((nm, q, n, lst),)
            out.append((st, n))
    return out


@model("strcpy")
def m_strcpy(E, st, a, inst):
    r = need_cstr(E, st, a[1], inst)
    if r is None:
        return []
    q, P = r
    n = st.cs.norm(P - q.off + 1)
    d = mem_range(E, st, a[0], n, inst, "write")
    if d is None:
        return []
    E.copy_bytes(st, d, q, n)
    st.set_attr(d.b, "cstr", (d.off, d.off + n - 1))
    return [(st, a[0])]


@model("strncpy")
def m_strncpy(E, st, a, inst):
    r = need_cstr(E, st, a[1], inst)
    if r is None:
        return []
    q, P = r
    out = []
    for s, n in u64(E, st, a[2]):
        d = mem_range(E, s, a[0], n, inst, "write")
        if d is None:
            continue
        L = s.cs.norm(P - q.off)
        # fits (padded with NUL) or truncated without terminator
        f = s.fork()
        if f.cs.add_ge(n - L - 1) and not f.cs.bot:
            E.write(f, d.b, d.off, n, Fill(ZERO))
            if not f.cs.entails_eq(L):
                E.copy_bytes(f, d, q, L)
            f.set_attr(d.b, "cstr", (d.off, d.off + L))
            out.append((f, a[0]))
        if s.cs.add_ge(L - n) and not s.cs.bot:
            s.note("strncpy truncates")
            E.copy_bytes(s, d, q, n)
            if "cstr" in s.mem[d.b].a:
                w = s.wreg(d.b)
                w.a = dict(w.a)
                del w.a["cstr"]
            s.set_attr(d.b, "nonul", s.mem[d.b].a.get("nonul", ()) + ((d.off, s.cs.norm(d.off + n)),))
            out.append((s, a[0]))
    return out


def write_formatted(E, st, dst, n, rc, inst, fmt=None):
    """effect of a successful snprintf into dst[n] (n >= 1 known)"""
    out = []
    t = st.fork()
    if t.cs.add_ge(n - rc - 1):
        h = Havoc("snprintf")
        E.write(t, dst.b, dst.off, rc, h)
        t.g["fmt"] = t.g.get("fmt", ()) + ((h.uid, rc, True),)
        E.write(t, dst.b, dst.off + rc, ONE, ZERO)
        t.set_attr(dst.b, "cstr", (dst.off, t.cs.norm(dst.off + rc)))
        t.g["formatted"] = (dst.b, dst.off, rc)
        if isinstance(fmt, Ptr):
            t.g["fmtptr"] = t.g.get("fmtptr", ()) + ((h.uid, t.rp(fmt)),)
        out.append(t)
    if st.cs.add_ge(rc - n):
        st.note("output truncated")
        h = Havoc("snprintf")
        E.write(st, dst.b, dst.off, n - 1, h)
        st.g["fmt"] = st.g.get("fmt", ()) + ((h.uid, rc, False),)
        E.write(st, dst.b, dst.off + n - 1, ONE, ZERO)
        st.set_attr(dst.b, "cstr", (dst.off, st.cs.norm(dst.off + n - 1)))
        out.append(st)
    return out


def fmt_args(E, st, fmt, args, inst):
    """%s arguments must be strings"""
    q = st.rp(fmt) if isinstance(fmt, Ptr) else None
    if q is None or not isinstance(q.b, str):
        return
    r = st.mem.get(q.b)
    if r is None:
        return
    for eo, es, ev in r.ents:
        if isinstance(ev, tuple) and ev[0] == "bytes":
            import re
            specs = re.findall(rb"%[-+ #0]*(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t)?([a-zA-Z%])", ev[1])
            i = 0
            for w, pr, ln, cv in specs:
                if cv == b"%":
                    continue
                if w == b"*":
                    i += 1
                if pr == b"*":
                    i += 1
                if cv == b"s" and i < len(args):
                    v = args[i]
                    if isinstance(v, Ptr) and not pr:
                        need_cstr(E, st, v, inst)
                i += 1


def const_string(st, p):
    """the bytes of a constant string argument, or None"""
    q = st.rp(p) if isinstance(p, Ptr) else None
    if q is None or q.b not in st.mem:
        return None
    o = st.const(q.off)
    if o is None or st.mem[q.b].kind != "const":
        return None
    for eo, es, ev in st.mem[q.b].ents:
        if isinstance(ev, tuple) and ev[0] == "bytes" and eo.is_const() and eo.c <= o < eo.c + len(ev[1]):
            return ev[1][o - eo.c:].split(b"\0")[0]
    return None


def fmt_pieces(E, st, fmt, args, inst):
    """output of a format made of literals, %s, %.*s and %c: [(state, pieces)],
    pieces = ("lit", bytes) | ("str", Ptr, Lin) | ("chr", Lin); None: not such a format"""
    f = const_string(st, fmt)
    if f is None:
        return None
    toks = []
    i = 0
    lit = b""
    while i < len(f):
        if f[i:i + 1] != b"%":
            lit += f[i:i + 1]
            i += 1
            continue
        for t in (b"%%", b"%s", b"%.*s", b"%c"):
            if f.startswith(t, i):
                break
        else:
            return None
        i += len(t)
        if t == b"%%":
            lit += b"%"
            continue
        if lit:
            toks.append(("lit", lit))
            lit = b""
        toks.append((t,))
    if lit:
        toks.append(("lit", lit))
    alts = [(st, [], list(args))]
    for t in toks:
        nx = []
        for s, acc, rest in alts:
            if t[0] == "lit":
                nx.append((s, acc + [t], rest))
                continue
            if t[0] == b"%c":
                if not rest or not isinstance(rest[0], Lin):
                    return None
                nx.append((s, acc + [("chr", rest[0])], rest[1:]))
                continue
            if t[0] == b"%s":
                if not rest or not isinstance(rest[0], Ptr):
                    return None
                r = need_cstr(E, s, rest[0], inst)
                if r is not None:
                    nx.append((s, acc + [("str", r[0], s.cs.norm(r[1] - r[0].off))], rest[1:]))
                continue
            if len(rest) < 2 or not isinstance(rest[0], Lin) or not isinstance(rest[1], Ptr):
                return None
            for u, n in E.norm_s(s, rest[0], 32):
                if u.cs.entails_eq(n):
                    nx.append((u, acc, rest[2:]))
                    continue
                q = E.deref(u, rest[1], inst, "string read")
                if q is None:
                    continue
                if isinstance(q.b, str) and q.b not in u.mem:
                    E.global_region(u, q.b[1:])
                P = cstr_of(E, u, q)
                if P is None:
                    # not known to be terminated: the precision must keep it inside
                    if u.cs.entails_ge(n) and E.check_access(u, q, n, inst, "read"):
                        u.exact = False
                        nx.append((u, acc + [("str", q, n)], rest[2:]))
                    continue
                L = u.cs.norm(P - q.off)
                for alt in ((-n - 1,), (n, L - n), (n - L - 1,)):
                    v = u.fork()
                    if all(v.cs.add_ge(e) for e in alt) and not v.cs.bot:
                        nx.append((v, acc + [("str", q, n if len(alt) == 2 else L)], rest[2:]))
        alts = nx
    return [(s, acc) for s, acc, rest in alts]


def write_pieces(E, st, d, pieces):
    """store the formatted text; returns the offset of its first NUL"""
    off = d.off
    z = None
    for p in pieces:
        if p[0] == "lit":
            E.write(st, d.b, off, K(len(p[1])), ("bytes", p[1]))
            off = off + len(p[1])
        elif p[0] == "str":
            if not st.cs.entails_eq(p[2]):
                E.copy_bytes(st, Ptr(d.b, off), p[1], p[2])
            off = off + p[2]
        else:
            E.write(st, d.b, off, ONE, p[1])
            if z is None and not st.cs.entails_ne(p[1]):
                z = off
            off = off + 1
        off = st.cs.norm(off)
    E.write(st, d.b, off, ONE, ZERO)
    z = off if z is None else st.cs.norm(z)
    st.set_attr(d.b, "cstr", (d.off, z))
    return off


def pieces_len(pieces):
    n = ZERO
    for p in pieces:
        n = n + (len(p[1]) if p[0] == "lit" else 1 if p[0] == "chr" else p[2])
    return n


def snprintf_exact(E, st, a, alts, inst):
    out = []
    for s0, pieces in alts:
        rc = s0.cs.norm(pieces_len(pieces))
        for s, n in u64(E, s0, a[1]):
            f = s.fork()
            f.note("snprintf fails")
            f.g["fmtfail"] = True
            set_errno(E, f)
            d = None
            z = s.fork()
            if z.cs.add_eq(n) and not z.cs.bot:
                if z.cs.add_ge(-rc + INT_MAX):
                    out.append((z, rc))
            if not s.cs.add_ge(n - 1) or s.cs.bot:
                out.append((f, fresh("snprintf-", -INT_MAX - 1, -1)))
                continue
            d = mem_range(E, s, a[0], n, inst, "write")
            if d is None:
                continue
            if f.cs.add_ge(n - 1):
                E.write(f, d.b, d.off, n, Havoc("snprintf"))
            out.append((f, fresh("snprintf-", -INT_MAX - 1, -1)))
            if not s.cs.add_ge(-rc + INT_MAX):
                continue
            w = s.fork()
            if w.cs.add_ge(n - rc - 1) and not w.cs.bot:
                write_pieces(E, w, d, pieces)
                out.append((w, rc))
            if s.cs.add_ge(rc - n) and not s.cs.bot:
                s.note("output truncated")
                E.write(s, d.b, d.off, n - 1, Havoc("snprintf"))
                E.write(s, d.b, d.off + n - 1, ONE, ZERO)
                s.set_attr(d.b, "cstr", (d.off, s.cs.norm(d.off + n - 1)))
                out.append((s, rc))
    return out


@model("snprintf", "vsnprintf", "__snprintf_chk", "__vsnprintf_chk")
def m_snprintf(E, st, a, inst):
    nm = inst.x["callee"][1]
    rck = None
    if nm.startswith("v"):
        # the same format and arguments give the same length every time
        q = E.deref(st, a[3], inst, "va_list")
        if q is not None:
            from .ir import PTR
            ov = E.read(st, q.b, q.off + 8, 8, PTR)
            o = st.rp(ov) if isinstance(ov, Ptr) else None
            w = st.mem.get(o.b) if o is not None else None
            if w is not None and w.name == "varargs":
                # started afresh from the same arguments
                rck = ("vsn", repr(st.norm(a[2])), repr(o.off), repr(w.ents))
            else:
                rck = ("vsn", repr(st.norm(a[2])), repr(st.norm(ov)))
    if nm.startswith("v"):
        use_va(E, st, a[3], inst)
    else:
        if nm == "snprintf" and isinstance(a[2], Ptr):
            q = E.deref(st, a[2], inst, "format")
            if q is not None and isinstance(q.b, str) and q.b not in st.mem:
                E.global_region(st, q.b[1:])
            alts = fmt_pieces(E, st.fork(), a[2], a[3:], inst)
            if alts is not None:
                return snprintf_exact(E, st, a, alts, inst)
        fmt_args(E, st, a[2], a[3:], inst)
    out = []
    for s, n in u64(E, st, a[1]):
        z = s.fork()
        if z.cs.add_eq(n):
            # pure length query
            for ok in (True, False):
                t = z.fork()
                if ok:
                    rc = fresh(nm, 0, INT_MAX) if rck is None else V(memo_sym(rck, nm, 0, INT_MAX))
                    out.append((t, rc))
                else:
                    t.note("%s fails" % nm)
                    t.g["fmtfail"] = True
                    set_errno(E, t)
                    out.append((t, fresh(nm + "-", -INT_MAX - 1, -1)))
        if not s.cs.add_ge(n - 1):
            continue
        d = mem_range(E, s, a[0], n, inst, "write")
        if d is None:
            continue
        f = s.fork()
        f.note("%s fails" % nm)
        f.g["fmtfail"] = True
        set_errno(E, f)
        E.write(f, d.b, d.off, n, Havoc("snprintf"))
        out.append((f, fresh(nm + "-", -INT_MAX - 1, -1)))
        rc = fresh(nm, 0, INT_MAX) if rck is None else V(memo_sym(rck, nm, 0, INT_MAX))
        for t in write_formatted(E, s, d, n, rc, inst, a[2]):
            out.append((t, rc))
    return out


@model("strerror", "gai_strerror", "strerror_r")
def m_strerror(E, st, a, inst):
    rid = E.new_region(st, "ext", "strerror", None, "sym")
    return [(st, Ptr(rid))]


@model("tolower", "toupper")
def m_tolower(E, st, a, inst):
    out = []
    for s, x in E.norm_s(st, E.as_int(st, a[0]), 32):
        out.append((s, V(memo_sym((inst.x["callee"][1], x), "tolower", -128, 255))))
    return out


@model("__ctype_b_loc")
def m_ctype(E, st, a, inst):
    key = "@ctype_b"
    if key not in st.mem:
        # table indexable from -128 to 255
        st.mem["@ctype_tab"] = Region("@ctype_tab", "const", "ctype table", K(384 * 2), "sym")
        r = Region(key, "const", "ctype_b_loc", K(8), "sym")
        r.ents = ((ZERO, K(8), Ptr("@ctype_tab", K(256))),)
        st.mem[key] = r
    return [(st, Ptr(key))]


class _As:
    """the same call site, seen as a call of another function"""

    def __init__(self, inst, name):
        self._i = inst
        self.x = dict(inst.x, callee=("@", name))

    def __getattr__(self, k):
        return getattr(self._i, k)


def plus(st, p, n):
    p = st.rp(p)
    return Ptr(p.b, st.cs.norm(p.off + n))


@model("mempcpy")
def m_mempcpy(E, st, a, inst):
    out = []
    for s, n in u64(E, st, a[2]):
        for t, r in m_memcpy(E, s, [a[0], a[1], n], _As(inst, "memcpy")):
            out.append((t, plus(t, r, n)))
    return out


@model("bzero", "explicit_bzero")
def m_bzero(E, st, a, inst):
    return [(s, None) for s, r in m_memset(E, st, [a[0], ZERO, a[1]], inst)]


@model("stpcpy")
def m_stpcpy(E, st, a, inst):
    out = []
    for s, r in m_strcpy(E, st, a, inst):
        q = s.rp(a[0])
        P = cstr_of(E, s, q)
        out.append((s, Ptr(q.b, s.cs.norm(P))))
    return out


@model("strcat")
def m_strcat(E, st, a, inst):
    r = need_cstr(E, st, a[0], inst)
    if r is None:
        return []
    q, P = r
    out = []
    for s, x in m_strcpy(E, st, [Ptr(q.b, st.cs.norm(P)), a[1]], inst):
        z = s.mem[q.b].a.get("cstr")
        if z is not None:
            s.set_attr(q.b, "cstr", (q.off, z[1]))
        out.append((s, a[0]))
    return out


@model("strnlen")
def m_strnlen(E, st, a, inst):
    q = E.deref(st, a[0], inst, "string read")
    if q is None:
        return []
    out = []
    for s, n in u64(E, st, a[1]):
        if isinstance(q.b, str) and q.b not in s.mem:
            E.global_region(s, q.b[1:])
        P = cstr_of(E, s, q)
        if P is None:
            if mem_range(E, s, q, n, inst, "read") is None:
                continue
            r = fresh("strnlen", 0)
            s.cs.add_ge(n - r)
            s.exact = False
            out.append((s, r))
            continue
        L = s.cs.norm(P - q.off)
        t = s.fork()
        if t.cs.add_ge(n - L - 1) and not t.cs.bot and mem_range(E, t, q, L + 1, inst, "read") is not None:
            out.append((t, L))
        if s.cs.add_ge(L - n) and not s.cs.bot and mem_range(E, s, q, n, inst, "read") is not None:
            out.append((s, n))
    return out


@model("strdup", "strndup")
def m_strdup(E, st, a, inst):
    nm = inst.x["callee"][1]
    out = []
    if nm == "strndup":
        alts = m_strnlen(E, st, a, inst)
    else:
        alts = m_strlen(E, st, a, inst)
    for s, n in alts:
        for t, p in alloc(E, s, n + 1, False, inst, nm):
            if p is NULL:
                out.append((t, p))
                continue
            if not alloc_limit(E, t, n + 1, inst):
                continue
            if not t.cs.entails_eq(n):
                E.copy_bytes(t, p, t.rp(a[0]), n)
            E.write(t, p.b, n, ONE, ZERO)
            t.set_attr(p.b, "cstr", (ZERO, t.cs.norm(n)))
            out.append((t, p))
    return out


@model("memchr", "rawmemchr")
def m_memchr(E, st, a, inst):
    from .ir import I
    out = []
    for s, n in u64(E, st, a[2]):
        q = mem_range(E, s, a[0], n, inst, "read")
        if q is None:
            continue
        f = s.fork()
        f.note("memchr finds nothing")
        out.append((f, NULL))
        i = fresh("memchr", 0)
        if s.cs.add_ge(n - i - 1) and not s.cs.bot:
            c = s.const(E.as_int(s, a[1]))
            if c is not None:
                E_read_note(E, s, q.b, s.cs.norm(q.off + i), K(c % 256))
            s.exact = False
            f.exact = False
            out.append((s, Ptr(q.b, s.cs.norm(q.off + i))))
    return out


@model("abs", "labs", "llabs")
def m_abs(E, st, a, inst):
    bits_ = 32 if inst.x["callee"][1] == "abs" else 64
    out = []
    for s, x in E.norm_s(st, E.as_int(st, a[0]), bits_):
        t = s.fork()
        if t.cs.add_ge(x) and not t.cs.bot:
            out.append((t, x))
        if s.cs.add_ge(-x - 1) and not s.cs.bot:
            if "ovf" in E.opts and E.opts["ovf"]:
                E.ob(s, "ovf", s.cs.entails_ge(x + 2 ** (bits_ - 1) - 1), "abs of the smallest value", inst)
            out.append((s, -x))
    return out


@model("sprintf", "vsprintf")
def m_sprintf(E, st, a, inst):
    nm = inst.x["callee"][1]
    if nm == "sprintf" and isinstance(a[1], Ptr):
        q = E.deref(st, a[1], inst, "format")
        if q is not None and isinstance(q.b, str) and q.b not in st.mem:
            E.global_region(st, q.b[1:])
        alts = fmt_pieces(E, st.fork(), a[1], a[2:], inst)
        if alts is not None:
            out = []
            for s, pieces in alts:
                rc = s.cs.norm(pieces_len(pieces))
                d = mem_range(E, s, a[0], rc + 1, inst, "write")
                if d is None:
                    continue
                f = s.fork()
                f.note("sprintf fails")
                f.g["fmtfail"] = True
                set_errno(E, f)
                E.write(f, d.b, d.off, rc + 1, Havoc("sprintf"))
                out.append((f, fresh("sprintf-", -INT_MAX - 1, -1)))
                if s.cs.add_ge(-rc + INT_MAX) and not s.cs.bot:
                    write_pieces(E, s, d, pieces)
                    out.append((s, rc))
            return out
    return default_ext(E, st, a, inst, nm)


def default_ext(E, st, args, inst, name):
    """unknown external: fresh result, pointed-to objects havocked; nothing
    that follows can be blamed on the code (its effect is not known)"""
    st.exact = False
    for v in args:
        if isinstance(v, Ptr):
            p = st.rp(v)
            if not isinstance(p.b, tuple) and p.b in st.mem:
                r = st.mem[p.b]
                if r.kind in ("stack", "heap", "ext", "global") and r.size is not None:
                    E.write(st, p.b, ZERO, r.size, Havoc(name))
    ty = E.mod.resolve(inst.ty)
    if ty.k == "void":
        return [(st, None)]
    return [(st, E._fresh_for(name, ty, 0, False))]
