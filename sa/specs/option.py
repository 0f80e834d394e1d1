"""Command line option matching."""
from ..spec import *
from .. import skel, models
S, I_ = "sc_option", "sc_option_item"
DEL = b"-= "


def same_text(st, p, pn, q, qn, E=None):
    """are the texts p[0,pn) and q[0,qn) equal on this path? True/False/None"""
    if st.ne(pn - qn):
        return False
    p, q = st.norm(p), st.norm(q)
    for a, b, n in st.g.get("eqr", ()):
        if {repr(a), repr(b)} == {repr(p), repr(q)} and st.eq(n - pn) and st.eq(pn - qn):
            return True
    for a, b, n in st.g.get("ner", ()):
        if {repr(a), repr(b)} == {repr(p), repr(q)}:
            if isinstance(n, tuple):        # whole strings of these lengths
                m, l = n if repr(a) == repr(p) else n[::-1]
                if st.eq(m - pn) and st.eq(l - qn):
                    return False
            elif st.ge(pn, n) or st.ge(qn, n):
                return False
    if st.eq(pn) and st.eq(qn):
        return True
    if E is not None and st.ge(K(8), pn) or bytewise(st, q):
        # the program may have compared character by character
        same = 0
        for j in range(9):
            if not (st.ge(pn, j + 1) and st.ge(qn, j + 1)):
                break
            x, y = (E.norm_u(st.fork(), E.as_int(st, E.read(st, r.b, st.cs.norm(r.off + j), 1, I(8))), 8) for r in (p, q))
            if len(x) != 1 or len(y) != 1:
                break
            if st.ne(x[0][1] - y[0][1]):
                return False
            same += st.eq(x[0][1] - y[0][1]) and same == j
        if st.eq(pn - qn) and st.eq(pn - same):
            return True
    return None


def bytewise(st, q):
    """was the text at q read one character at a time?"""
    r = st.mem.get(q.b)
    return r is not None and any(n == 1 for o, n, v in r.lazy)


def m_strcmp(E, st, a, inst):
    nm = inst.x["callee"][1]
    r = [models.need_cstr(E, st, p, inst) for p in a[:2]]
    if None in r:
        return []
    (p, P), (q, Q) = r
    m, n = st.cs.norm(P - p.off), st.cs.norm(Q - q.off)
    p, q = st.norm(p), st.norm(q)
    out = []
    for s, lim in ([(st, None)] if nm == "strcmp" else models.u64(E, st, a[2])):
        alts = [("eq", [("eq", m - n)], m)] if lim is None else \
            [("eq", [("ge", m - lim), ("ge", n - lim)], lim), ("eq", [("eq", m - n), ("ge", lim - m - 1)], m)]
        for _, cond, k in alts:
            for t, _ in cases(s, [cond]):
                t.g["eqr"] = t.g.get("eqr", ()) + ((p, q, t.cs.norm(k)),)
                t.note(nm + " finds the texts equal")
                out.append((t, ZERO))
        s.g["ner"] = s.g.get("ner", ()) + ((p, q, (m, n) if lim is None else s.cs.norm(lim)),)
        if lim is not None:
            s.cs.add_ge(lim - 1)
        if s.cs.bot or s.eq(m) and s.eq(n) or lim is not None and s.eq(lim):
            continue            # two empty texts cannot differ
        v = fresh(nm, -255, 255)
        s.cs.add_ne(v)
        s.note(nm + " finds the texts different")
        out.append((s, v))
    return out


def setup(C, spec, nopt, names, maxseg):
    st = State()
    src, k = skel.make(C, st, "arg", spec, DEL, maxseg=maxseg)
    isz = C.ssize(I_)
    arr = C.block(st, "options", K(isz * nopt)) if nopt else NULL
    opts = []
    for i in range(nopt):
        l = fresh("letter%d" % i, 1, 255)
        for d in DEL:
            st.cs.add_ne(l - d)
        o, n = C.foff(I_, "letter")
        C.E.write(st, arr.b, K(isz * i + o), K(n), l)
        if names[i]:
            nm, nl = C.cstring(st, "name%d" % i, 2 ** 31)
        else:
            nm, nl = NULL, ZERO
        o, n = C.foff(I_, "name")
        C.E.write(st, arr.b, K(isz * i + o), K(n), nm)
        opts.append((l, nm, nl))
    argv = C.block(st, "argv", K(8 * 3))
    C.E.write(st, argv.b, K(8), K(8), src)
    p = C.new_struct(st, S, "opt")
    C.put(st, p, S, "options", arr)
    C.put(st, p, S, "count", nopt)
    C.put(st, p, S, "argv", argv)
    val = C.block(st, "value", K(8))
    return st, p, src, k, val, opts


def check(C, s, r, src, k, val, opts):
    P = k.pieces
    v = s.rp(C.E.read(s, val.b, ZERO, 8, PTR))
    is_ = lambda i, c: i < len(P) and P[i] == ("c", c)
    off = lambda i: k.off[i] if i < len(P) else k.end

    def verdict(t, letter, voff):
        if letter is None:
            C.check(t, "option", t.eq(r - 63), "an unknown option gives '?'", "%s" % r)
            C.check(t, "option", t.isnull(v), "an unknown option has no value", "%s" % (v,))
            return
        d = C.same(t, r, letter)
        C.check(t, "option", d, "a known option gives its letter", "%s vs %s" % (r, letter))
        ok = v.b == src.b and t.eq(v.off - voff)
        C.check(t, "option", ok, "the value starts behind '=', or is empty", "%s" % (v,))

    if not is_(0, 45):
        return verdict(s, None, None)
    if not is_(1, 45):
        # one letter
        if len(P) == 1:
            return verdict(s, None, None)
        c = C.byte(s, src, ONE)
        rest = off(1) + 1
        single = P[1][0] == "c" or s.eq(P[1][1] - 1)
        states = [s]
        if not single and P[1][0] == "seg":
            if s.ne(P[1][1] - 1):
                return verdict(s, None, None)
            states = [t for t, i in cases(s, [[("eq", P[1][1] - 1)], [("ge", P[1][1] - 2)]])]
        for s in states:
            if P[1][0] == "seg" and s.ge(P[1][1], 2):
                verdict(s, None, None)
                continue
            if is_(2, 32):
                continue        # a blank behind the letter: not specified
            eqs = not is_(2, 61) and len(P) > 2
            if eqs:
                verdict(s, None, None)
                continue
            todo = s
            for l, _, _ in opts:
                for t, i in cases(todo, [[("eq", c - l)]]):
                    verdict(t, l, off(2) + (1 if is_(2, 61) else 0))
                if not todo.cs.add_ne(c - l) or todo.cs.bot:
                    todo = None
                    break
            if todo is not None:
                verdict(todo, None, None)
        return
    j = 2
    while j < len(P) and P[j] != ("c", 61):
        j += 1
    long_option(C, s, off(j) - 2, j, off, P, opts, src, verdict)


def long_option(C, s, n, j, off, P, opts, src, verdict):
    for i, (l, nm, nl) in enumerate(opts):
        if nm is NULL:
            continue
        m = same_text(s, Ptr(src.b, K(2)), n, nm, nl, C.E)
        if m is None and bytewise(s, nm):
            alts = [[("ge", n - nl - 1)], [("ge", nl - n - 1)], [("eq", n - nl)]]
            if not s.eq(n - nl):
                for t, _ in cases(s, alts):
                    long_option(C, t, n, j, off, P, opts[i:], src, verdict)
            return              # equally long, but not every character is known: undecided
        if m:
            return verdict(s, l, off(j) + (1 if j < len(P) else 0))
        if m is None:
            # not compared on this path: only correct if an earlier one matched
            C.check(s, "option", False if s.exact else None, "an option that matches by name is found", "%s %s %s %s" % (n, nl, s.g.get("eqr"), s.g.get("ner")))
            return
    verdict(s, None, None)


SPECS = [[], ["x"], [45], [45, 45], [45, "a"], [45, "a", 61], [45, "a", 61, "v"], [45, 61], [45, 61, "v"], [45, 61, 61, "v"],
         [45, "a", 45], [45, "a", 32, "v"], [45, 45, "n"], [45, 45, "n", 61], [45, 45, "n", 61, "v"], [45, 45, 61, "v"],
         [45, 45, "n", 61, "v", 61, "w"], [45, 45, "n", 45, "m", 61, "v"], [45, 45, "n", 32, "m"], [45, 45, 45, "n"],
         ["x", 45, "a"], ["x", 61, "v"], [45, "a", 61, "v", 61], [45, 45, 61], [45, 32], [45, "a", 61, 45, "v"]]


def run(C, chunk, big=False):
    C.require("sc_option_at")
    shapes = [(0, ()), (1, (1,)), (1, (0,)), (2, (1, 1)), (2, (0, 1)), (2, (1, 0))]
    if big:
        shapes += [(3, (1, 1, 1)), (3, (1, 0, 1)), (4, (1, 1, 0, 1))]
    for sp in chunk:
        for n, names in shapes:
            for ms in (3, 2 ** 30):
                if ms > 3 and not any(isinstance(x, str) for x in sp):
                    continue
                st, p, src, k, val, opts = setup(C, sp, n, names, ms)
                before = {b: x.nwr for b, x in st.mem.items() if b != val.b and x.kind == "ext"}
                for s, r in C.run("sc_option_at", [(st, [p, ONE, val])]):
                    C.check(s, "option", all(s.mem[b].nwr == n for b, n in before.items()), "options and arguments are only read")
                    for t, x in C.E.norm_u(s, C.E.as_int(s, r), 8):
                        check(C, t, x, src, k, val, opts)


MODELS = dict(skel.MODELS)
MODELS.update(strcmp=m_strcmp, strncmp=m_strcmp)
