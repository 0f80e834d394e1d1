"""INI parser, decided on delimiter skeletons line by line."""
from ..spec import *
from .. import skel, models
from .uri import text as utext
DEL = b" \t\n\v\f\r=:[];#\xef\xbb\xbf"
SP = b" \t\n\v\f\r"


def text(*a):
    utext(*a, kind="ini")


def strip(P, i, j):
    while i < j and P[i][0] == "c" and P[i][1] in SP:
        i += 1
    while j > i and P[j - 1][0] == "c" and P[j - 1][1] in SP:
        j -= 1
    return i, j


def oracle(P):
    """P: pieces of the whole text -> ([(line, section, key, value)], return code); ranges are piece index pairs"""
    out = []
    sec = key = None
    i = 0
    n = len(P)
    line = 0

    def find(i, j, chars):
        while i < j and not (P[i][0] == "c" and P[i][1] in chars):
            i += 1
        return i
    while i < n:
        line += 1
        e = find(i, n, b"\n")
        a, z = i, e
        i = e + 1
        beg = a
        if line == 1 and [p[1] for p in P[a:a + 3] if p[0] == "c"] == [0xEF, 0xBB, 0xBF]:
            a += 3
        if a == z or P[a][0] == "c" and P[a][1] in b";#":
            continue
        for q in range(a, z - 1):
            if P[q] == ("c", 32) and P[q + 1][0] == "c" and P[q + 1][1] in b";#":
                z = q
                break
        a, z = strip(P, a, z)
        if a == z:
            continue
        if a > beg and key is not None and key[0] < key[1]:
            out.append((line, sec, key, (a, z)))
        elif P[a] == ("c", 91):
            q = find(a, z, b"]")
            if q == z:
                return out, line
            sec, key = (a + 1, q), None
        else:
            q = find(a, z, b"=:")
            if q == z:
                return out, line
            key = strip(P, a, q)
            out.append((line, sec, key, strip(P, q + 1, z)))
    return out, 0


def m_cb(E, st, a, inst):
    C = st.g["C"]
    i = st.g["ncb"]
    st.g["ncb"] = i + 1
    want = st.g["want"]
    k, src = st.g["k"]
    if st.g["long"]:
        return m_any(E, st, a, inst)
    ok = i < len(want)
    C.check(st, "ini", ok, "the callback is called once per entry")
    if not ok:
        return []
    w = want[i]
    C.check(st, "ini", st.eq(E.norm_u(st, E.as_int(st, a[1]), 32)[0][1] - w[0]), "the callback gets the line number of the entry",
            "%s, expected %d" % (a[1], w[0]))
    C.check(st, "ini", st.norm(a[0]) == st.norm(st.g["arg"]), "the callback gets the user's argument")
    for j, what in ((1, "section"), (2, "key"), (3, "value")):
        o, n = ZERO, ZERO
        if w[j] is not None:
            o = k.off[w[j][0]] if w[j][0] < len(k.pieces) else k.end
            n = (k.off[w[j][1]] if w[j][1] < len(k.pieces) else k.end) - o
        # names longer than 255 characters and lines longer than the buffer are cut
        if not (st.ge(K(255), n) if j < 3 else st.ge(K(1000), n)):
            models.need_cstr(E, st.fork(), a[j + 1], inst, what)
            continue
        text(C, st, a[j + 1], n, src, o, what)
    f = st.fork()
    f.g["stop"] = w[0]
    rc = fresh("cb", -2 ** 31, 2 ** 31 - 1)
    f.cs.add_ne(rc)
    f.note("callback asks to stop")
    return [(st, ZERO), (f, rc)]


def ctoint(E, s, v):
    return E.norm_s(s, E.as_int(s, v), 32)


def m_fopen(E, st, a, inst):
    f = st.fork()
    f.note("fopen fails")
    f.g["nofile"] = True
    models.set_errno(E, f)
    rid = E.new_region(st, "ext", "FILE", K(216), "sym")
    st.g["file"] = rid
    st.g["opened"] = 1
    return [(f, NULL), (st, Ptr(rid))]


def m_fclose(E, st, a, inst):
    C = st.g["C"]
    ok = isinstance(a[0], Ptr) and st.rp(a[0]).b == st.g.get("file") and st.g["opened"] == 1
    C.check(st, "ini", ok, "the file is closed once")
    st.g["opened"] = 0
    return [(st, ZERO), (st.fork(), K(-1))]


def m_ferror(E, st, a, inst):
    return [(st, ONE if st.g.get("rderr") else ZERO)]


def m_feof(E, st, a, inst):
    return [(st, ONE if st.g.get("eof") else ZERO)]


def m_fgets(E, st, a, inst):
    """the next line of the text behind st.g['k']"""
    k, src = st.g["k"]
    i = st.g.get("pos", 0)
    P = k.pieces
    n = len(P)
    if st.g.get("rest"):
        # the caller reads an overlong line piecewise: not followed
        return models.default_ext(E, st, a, inst, "fgets")
    bad = None
    if i == 0 or i >= n:
        bad = st.fork()
        bad.note("read error")
        bad.g["rderr"] = True
    if i >= n:
        st.g["eof"] = True
        return [(st, NULL), (bad, NULL)]
    e = i
    while e < n and P[e] != ("c", 10):
        e += 1
    e = min(e + 1, n)
    L = (k.off[e] if e < n else k.end) - k.off[i]
    out = [(bad, NULL)] if bad is not None else []
    for s, sz in ctoint(E, st, a[1]):
        rest = None
        if not s.cs.entails_ge(sz - L - 1):
            if not s.cs.entails_ge(L - sz):
                return models.default_ext(E, st, a, inst, "fgets")
            # longer than the buffer: framing() looks at what follows
            L = sz - 1
            rest = (i, L)
        d = models.mem_range(E, s, a[0], L + 1, inst, "write")
        if d is None:
            continue
        E.copy_bytes(s, d, Ptr(src.b, k.off[i]), L)
        E.write(s, d.b, st.cs.norm(d.off + L), ONE, ZERO)
        s.g["pos"] = e
        s.g["rest"] = 2 if rest is not None else 0
        s.g["eof"] = e == n and P[n - 1] != ("c", 10)
        out.append((s, a[0]))
    return out


def one(C, spec, how, minseg, maxseg, ascii):
    st = State()
    src, k = skel.make(C, st, "text", spec, DEL, maxseg=maxseg, minseg=minseg)
    st.set_attr(src.b, "ascii", ascii)
    want, rc = oracle(k.pieces)
    long = any(isinstance(x, tuple) and x[1].c > 1000 for x in spec)
    arg = C.block(st, "arg", K(64))
    st.g.update(C=C, want=want, k=(k, src), arg=arg, ncb=0, long=long)
    if how == "string":
        runs = C.run("sc_ini_parse_string", [(st, [arg, Ptr("@user_cb"), src])])
    else:
        nm, _ = C.cstring(st, "filename")
        runs = C.run("sc_ini_parse_file", [(st, [arg, Ptr("@user_cb"), nm])])
    for s, r in runs:
        for t, v in C.E.norm_s(s, r, 32):
            C.check(t, "ini", not t.g.get("opened"), "the file is closed on every path")
            if t.g.get("nofile"):
                C.check(t, "ini", t.eq(v + 1), "a file that cannot be opened is reported as -1")
                continue
            if "stop" in t.g:
                C.check(t, "ini", t.eq(v - t.g["stop"]), "a callback that asks to stop ends parsing at once with its line",
                        "%s" % v)
                C.check(t, "ini", t.g["ncb"] <= len(want) and want[t.g["ncb"] - 1][0] == t.g["stop"],
                        "no callback after it asked to stop")
                continue
            if long:
                continue
            if t.g.get("rderr"):
                C.check(t, "ini", t.eq(v + 1), "a read error is reported as -1")
                continue
            C.check(t, "ini", t.g["ncb"] == len(want), "the callback is called for every entry", "%d of %d" %
                    (t.g["ncb"], len(want)))
            C.check(t, "ini", t.eq(v - rc), "the result is 0, or the line of the first malformed entry",
                    "%s, expected %d" % (v, rc))


def m_fgets_long(E, st, a, inst):
    """entries k=value of any length"""
    C = st.g["C"]
    C.check(st, "ini", not st.g.get("rest"), "an overlong line is not continued as another line")
    out = [(st.fork(), NULL)]
    if st.g.get("eof"):
        return out
    for s, sz in ctoint(E, st, a[1]):
        d = models.mem_range(E, s, a[0], sz, inst, "write")
        if d is None or not s.cs.entails_ge(sz - 8):
            continue
        for kind in ("shorter than the buffer", "fills the buffer", "longer than the buffer", "last line fills the buffer"):
            t = s.fork()
            nl = kind in ("shorter than the buffer", "fills the buffer")
            n = sz - 1 - (1 if nl else 0)       # without newline
            if kind == "shorter than the buffer":
                n = fresh("line", 3)
                t.cs.add_ge(sz - 3 - n)
            t.note("line " + kind)
            lo = ["k", 61, ("len", t.cs.norm(n - 2))] + ([10] if nl else [])
            src, k = skel.make(C, t, "line", lo, DEL, minseg=1, maxseg=1)
            t.set_attr(src.b, "ascii", True)
            L = k.end
            E.copy_bytes(t, d, src, L)
            E.write(t, d.b, t.cs.norm(d.off + L), ONE, ZERO)
            t.g["rest"] = 2 if kind == "longer than the buffer" else 0
            t.g["eof"] = kind == "last line fills the buffer"
            out.append((t, a[0]))
    return out


def m_fgetc(E, st, a, inst):
    out = []
    r = st.g.get("rest")
    e = st.fork()
    e.g["rest"] = 0
    e.g["eof"] = True
    out.append((e, K(-1)))
    if r:
        nl = st.fork()
        nl.g["rest"] = 0
        out.append((nl, K(10)))
        if r > 1:
            c = fresh("char", 0, 255)
            st.cs.add_ne(c - 10)
            st.g["rest"] = r - 1
            out.append((st, c))
    elif not st.g.get("eof"):
        st.note("reads past the line")
        st.g["C"].check(st, "ini", False, "nothing of the next line is skipped")
    return out


def framing(C):
    """a line-length adversary behind sc_ini_parse_file"""
    C.E.models.update(MODELS_LONG)
    st = State()
    nm, _ = C.cstring(st, "filename")
    arg = C.block(st, "arg", K(64))
    st.g.update(C=C, arg=arg)
    C.run("sc_ini_parse_file", [(st, [arg, Ptr("@user_any"), nm])])


def m_any(E, st, a, inst):
    for p, what in zip(a[2:5], ("section", "key", "value")):
        models.need_cstr(E, st.fork(), p, inst, what)
    rc = fresh("cb", -2 ** 31, 2 ** 31 - 1)
    return [(st, rc)]


L_ = {
    "kv": ["k", 61, "v"], "colon": ["k", 58, "v"], "both": ["k", 58, "v", 61, "w"], "sp": ["k", 32, 61, 32, "v", 32, "w", 32],
    "ev": ["k", 61], "ek": [61, "v"], "eksp": [32, 61, 32, "v"], "sec": [91, "s", 93], "secsp": [32, 91, "s", 32, "t", 93, 9],
    "secjunk": [91, "s", 93, "x"], "esec": [91, 93], "badsec": [91, "s"], "bad": ["x"], "badsp": ["x", 32, "y"],
    "cont": [32, "c"], "tab": [9, "c", 32, 32], "conteq": [32, "c", 61, "d"], "contsec": [32, 91, "c", 93],
    "cm": [59, "c"], "hash": [35, "c"], "icm": ["k", 61, "v", 32, 59, "c"], "ihash": ["k", 61, "v", 32, 35, "c", 61],
    "nocm": ["k", 61, "v", 59, "w"], "eqcm": ["k", 61, 32, 59, "c"], "blank": [32, 32], "none": [], "cr": ["k", 61, "v", 13],
    "sec2": [91, "s", 93, "t", 93], "keq": ["k", 61, "v", 61, "w"], "cmsp": [32, 59, "c"], "secq": [91, "s", 61, "t", 93],
    "sp2": ["k", 61, "v", 32, 32, 59, "c"], "val2": ["k", 61, 32, 32, "v"], "brk": ["k", 61, 91, "v", 93],
    "keysp": ["a", 32, "b", 61, "v"], "bracketkey": ["a", 91, "b", 61, "v", 93], "ksp3": ["k", 32, 9, 61, "v"],
    "tabcm": ["k", 61, "v", 9, 59, "c"], "half": ["k", 61, "v", 32, "w", 32, 35, "c", 32, 59, "d"],
}
BOM = [0xEF, 0xBB, 0xBF]


def inputs(tier):
    out = []
    pre = {"": [], "s": [L_["sec"]], "sk": [L_["sec"], L_["kv"]], "k": [L_["kv"]], "kes": [L_["kv"], L_["esec"]],
           "ekc": [L_["ek"]], "skc": [L_["sec"], L_["sp"], L_["cont"]], "sks": [L_["sec"], L_["kv"], L_["secsp"]],
           "kbl": [L_["kv"], L_["none"], L_["cm"]]}
    for pn in pre:
        for ln in L_:
            if tier == "quick" and pn not in ("", "sk", "s") and ln not in ("kv", "cont", "bad", "conteq", "sec", "contsec"):
                continue
            for post in ([], [L_["kv"]]):
                if tier == "quick" and post and pn in ("", "s"):
                    continue
                out.append(pre[pn] + [L_[ln]] + post)
    res = []
    n = [0]

    def ren(ls, nl):
        sp = []
        for i, l in enumerate(ls):
            sp += ["%s%d" % (x, i) if isinstance(x, str) else x for x in l]
            if i + 1 < len(ls) or nl:
                sp.append(10)
        return sp
    for i, ls in enumerate(out):
        res.append(ren(ls, i % 2))
    for l in ("kv", "sec", "bad", "none", "cm", "cont"):
        res.append(BOM + ren([L_[l], L_["kv"]], 0))
        res.append(ren([L_["kv"]], 1) + BOM + ren([L_[l]], 0))
    res.append(BOM[:2] + ren([L_["kv"]], 0))
    res.append(BOM)
    return res


def long_inputs(tier):
    out = []
    kv = [10, "k9", 61, "v9"]
    for n in (254, 255, 256, 300, 1015, 1019, 1020, 1021, 1022, 1023, 1500, 5000):
        if tier == "quick" and n in (254, 300, 1019, 5000):
            continue
        x = ("len", K(n))
        out += [["k", 61, x] + kv, [x, 61, "v"] + kv[:n < 1000 and 9], [91, x, 93] + kv[:n < 1000 and 9],
                ["k", 61, "v", 32, 59, x] + kv, [x, 61, "v", 10, 32, "c"] if n < 1000 else [35, x] + kv,
                ["k", 61, "v", 10, 32, x] + kv, [x]]
    return out


def run(C, chunk, minseg, maxseg):
    """every run of text is minseg..maxseg characters long"""
    C.require("sc_ini_parse_string", "sc_ini_parse_file")
    for sp in chunk:
        ascii = sum(x == 10 for x in sp) > 1
        one(C, sp, "string", minseg, maxseg, ascii)
        one(C, sp, "file", minseg, maxseg, ascii)


MODELS = dict(skel.MODELS)
MODELS.update(user_cb=m_cb, user_any=m_any, fopen=m_fopen, fclose=m_fclose, ferror=m_ferror, feof=m_feof, fgets=m_fgets, fgetc=m_fgetc, getc=m_fgetc)
MODELS_LONG = dict(fgets=m_fgets_long)
