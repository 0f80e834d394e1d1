from ..spec import *
from .. import bits
S = "sc_buf"


def mk(C, shapes=("heap", "null", "ref", "refnull"), bad=(0, 1), base=None):
    """all shapes of a valid buffer -> [(state, Ptr, info)]"""
    out = []
    for sh in shapes:
        for e in bad:
            st = base.fork() if base is not None else State()
            b = C.new_struct(st, S, "b")
            cap = C.sym("b.cap", 0, PTRDIFF)
            rpos = C.sym("b.rpos")
            wpos = C.sym("b.wpos")
            err = C.sym("b.err", 0, 3)
            lim = C.sym("b.limit")
            st.assume_ge(wpos, rpos)
            st.assume_ge(cap, wpos)
            ref = 1 if sh.startswith("ref") else 0
            if sh in ("null", "refnull"):
                st.assume_eq(cap, 0)
                mem = NULL
                mrid = None
            else:
                mem = C.block(st, "mem", cap, "borrowed" if ref else "heap", "sym")
                mrid = mem.b
            if e:
                st.assume_ge(err, 1)
            else:
                st.assume_eq(err, 0)
            C.put(st, b, S, "mem", mem)
            C.put(st, b, S, "cap", cap)
            C.put(st, b, S, "limit", lim)
            C.put(st, b, S, "rpos", rpos)
            C.put(st, b, S, "wpos", wpos)
            C.put(st, b, S, "err", err)
            C.put(st, b, S, "ref", ref)
            info = dict(cap=cap, rpos=rpos, wpos=wpos, err=err, lim=lim, ref=ref, mem=mrid, memp=mem, shape=sh)
            out.append((st, b, info))
    return out


def fields(C, st, b):
    return dict(cap=st.norm(C.get(st, b, S, "cap")), rpos=st.norm(C.get(st, b, S, "rpos")),
                wpos=st.norm(C.get(st, b, S, "wpos")), err=st.norm(C.get(st, b, S, "err")),
                lim=st.norm(C.get(st, b, S, "limit")), mem=C.getp(st, b, S, "mem"), ref=st.norm(C.get(st, b, S, "ref")))


def inv(C, st, b, kind="inv"):
    f = fields(C, st, b)
    C.check(st, kind, st.ge(f["wpos"], f["rpos"]), "read position <= write position on return")
    C.check(st, kind, st.ge(f["cap"], f["wpos"]), "write position <= capacity on return",
            "wpos=%s cap=%s" % (f["wpos"], f["cap"]))
    m = f["mem"]
    if C.null(st, m):
        C.check(st, kind, st.eq(f["cap"]), "no storage means zero capacity")
    else:
        r = st.mem[m.b]
        C.check(st, kind, r.live, "storage pointer refers to live memory on return")
        C.check(st, kind, r.size is not None and st.ge(r.size, f["cap"]), "capacity is covered by the storage",
                "cap=%s storage=%s" % (f["cap"], r.size))
    return f


GETS = {"sc_buf_get_8": 1, "sc_buf_get_16": 2, "sc_buf_get_32": 4, "sc_buf_get_64": 8, "sc_buf_get_bool": 1,
        "sc_buf_get_double": 8}
PEEKS = {"sc_buf_peek_8": 1, "sc_buf_peek_16": 2, "sc_buf_peek_32": 4, "sc_buf_peek_64": 8}
PEEKAT = {k + "_at": v for k, v in PEEKS.items()}
SETS = {"sc_buf_set_8": 1, "sc_buf_set_16": 2, "sc_buf_set_32": 4, "sc_buf_set_64": 8}
SETAT = {k + "_at": v for k, v in SETS.items()}
PUTS = {"sc_buf_put_8": 1, "sc_buf_put_16": 2, "sc_buf_put_32": 4, "sc_buf_put_64": 8, "sc_buf_put_bool": 1,
        "sc_buf_put_double": 8}


def calls(C):
    """(function, argument builder, tag): every API entry point with arbitrary arguments"""
    out = []

    def none(st, b, i):
        return []

    def u(w, nm):
        def f(st, b, i):
            return [C.sym(nm, 0, 2 ** (8 * w) - 1)]
        return f
    for n in list(GETS) + list(PEEKS) + ["sc_buf_get_str", "sc_buf_compact", "sc_buf_term", "sc_buf_clear",
                                         "sc_buf_valid", "sc_buf_quota", "sc_buf_size", "sc_buf_rpos", "sc_buf_wpos",
                                         "sc_buf_cap", "sc_buf_rbuf", "sc_buf_wbuf"]:
        out.append((n, none))
    for n in list(PEEKAT) + ["sc_buf_reserve", "sc_buf_shrink", "sc_buf_set_rpos", "sc_buf_limit",
                             "sc_buf_get_blob"]:
        out.append((n, u(8, "len")))
    for n, w in SETS.items():
        out.append((n, u(w, "val")))
    for n, w in SETAT.items():
        def f(st, b, i, w=w):
            return [C.sym("pos"), C.sym("val", 0, 2 ** (8 * w) - 1)]
        out.append((n, f))
    for n, w in PUTS.items():
        if n.endswith("bool"):
            out.append((n, lambda st, b, i: [C.sym("val", 0, 1)]))
        elif n.endswith("double"):
            out.append((n, lambda st, b, i: [fresh("dval")]))
        else:
            out.append((n, u(w, "val")))

    def datain(st, b, i):
        n = C.sym("len", 0, PTRDIFF)
        return [C.block(st, "src", n), n]
    out.append(("sc_buf_put_raw", datain))
    out.append(("sc_buf_put_blob", datain))
    out.append(("sc_buf_put_str_len", datain))
    out.append(("sc_buf_put_str_len", lambda st, b, i: [NULL, C.sym("len")]))
    out.append(("sc_buf_put_str", lambda st, b, i: [C.cstring(st, "str")[0]]))
    out.append(("sc_buf_put_str", lambda st, b, i: [NULL]))
    out.append(("sc_buf_put_fmt", lambda st, b, i: [C.cstring(st, "fmt")[0]]))
    out.append(("sc_buf_put_text", lambda st, b, i: [C.cstring(st, "fmt")[0]]))

    def dataout(st, b, i):
        n = C.sym("len", 0, PTRDIFF)
        return [C.block(st, "dest", n), n]
    out.append(("sc_buf_get_data", dataout))

    def peekdata(st, b, i):
        n = C.sym("len", 0, PTRDIFF)
        return [C.sym("pos"), C.block(st, "dest", n), n]
    out.append(("sc_buf_peek_data", peekdata))

    def setdata(st, b, i):
        n = C.sym("len", 0, PTRDIFF)
        return [C.sym("pos"), C.block(st, "src", n), n]
    out.append(("sc_buf_set_data", setdata))

    def markr(st, b, i):
        n = C.sym("len")
        st.assume_ge(i["wpos"] - i["rpos"], n)
        return [n]

    def markw(st, b, i):
        n = C.sym("len")
        st.assume_ge(i["cap"] - i["wpos"], n)
        return [n]
    def setw(st, b, i):
        n = C.sym("pos")
        st.assume_ge(n, i["rpos"])
        return [n]
    out.append(("sc_buf_set_wpos", setw))
    out.append(("sc_buf_mark_read", markr))
    out.append(("sc_buf_mark_write", markw))
    return out


def bounds(C):
    C.widths("inv")
    for fn, mkargs in calls(C):
        C.require(fn)
        for st, b, i in mk(C):
            a = mkargs(st, b, i)
            for s, r in C.run(fn, [(st, [b] + a)]):
                if fn == "sc_buf_term":
                    continue
                inv(C, s, b)
    lifecycle(C)


# ---------------------------------------------------------------- C02
def unchanged(C, s, b, i, what, kind="post"):
    f = fields(C, s, b)
    C.check(s, kind, s.eq(f["rpos"], i["rpos"]), "%s leaves the read position alone" % what)
    C.check(s, kind, s.eq(f["wpos"], i["wpos"]), "%s leaves the write position alone" % what)
    return f


def nowrite(C, s, i, what, kind="post"):
    if i["mem"] is None:
        return
    r = s.mem[i["mem"]]
    C.check(s, kind, r.nwr == 0, "%s writes nothing to the storage" % what)


def same_state(C, s, b, i, what, but=(), kind="post"):
    f = fields(C, s, b)
    for k, nm in (("rpos", "read position"), ("wpos", "write position"), ("cap", "capacity"), ("lim", "limit"),
                  ("err", "error mark")):
        if k not in but:
            C.check(s, kind, s.eq(f[k], i[k]), "%s leaves the %s alone" % (what, nm))
    C.check(s, kind, s.sameptr(f["mem"], i["memp"]) and s.eq(f["ref"], i["ref"]), "%s leaves the storage alone" % what)
    nowrite(C, s, i, what, kind)
    return f


def accessors(C):
    """sizes, positions, addresses and the error mark as the caller sees them"""
    vals = {"sc_buf_quota": lambda i: i["cap"] - i["wpos"], "sc_buf_size": lambda i: i["wpos"] - i["rpos"],
            "sc_buf_rpos": lambda i: i["rpos"], "sc_buf_wpos": lambda i: i["wpos"], "sc_buf_cap": lambda i: i["cap"]}
    for fn, want in vals.items():
        C.require(fn)
        for st, b, i in mk(C):
            for s, r in C.run(fn, [(st, [b])]):
                same_state(C, s, b, i, "an accessor")
                C.check(s, "post", s.eq(r, want(i)), "%s reports the current value" % fn, "%s" % s.norm(r))
    for st, b, i in mk(C):
        for s, r in C.run("sc_buf_valid", [(st, [b])]):
            same_state(C, s, b, i, "an accessor")
            for t, k in cases(s, [[("eq", i["err"])], [("ge", i["err"] - 1)]]):
                C.check(t, "post", t.eq(r, 1 - k), "a buffer is valid exactly while no error is marked")
    for fn in ("sc_buf_rbuf", "sc_buf_wbuf", "sc_buf_at"):
        C.require(fn)
        for st, b, i in mk(C, shapes=("heap", "ref")):
            pos = C.sym("pos") if fn == "sc_buf_at" else i["rpos"] if fn == "sc_buf_rbuf" else i["wpos"]
            if fn == "sc_buf_at":
                st.assume_ge(i["cap"] - pos)
            for s, r in C.run(fn, [(st, [b] + ([pos] if fn == "sc_buf_at" else []))]):
                same_state(C, s, b, i, "an accessor")
                r = s.rp(r)
                C.check(s, "post", r.b == i["mem"] and s.eq(r.off, pos), "%s points at its position in the storage" % fn,
                        "%s" % (r,))
    for st, b, i in mk(C):
        lim = C.sym("limit")
        for s, r in C.run("sc_buf_limit", [(st, [b, lim])]):
            f = same_state(C, s, b, i, "setting the limit", ("lim",))
            C.check(s, "post", s.eq(f["lim"], lim), "the limit set is the limit asked for")
    for st, b, i in mk(C):
        for s, r in C.run("sc_buf_clear", [(st, [b])]):
            f = same_state(C, s, b, i, "clear", ("rpos", "wpos", "err"))
            C.check(s, "post", s.eq(f["rpos"]) and s.eq(f["wpos"]) and s.eq(f["err"]),
                    "clear empties the buffer and removes the error mark")
    for fn, key, end in (("sc_buf_set_rpos", "rpos", "wpos"), ("sc_buf_set_wpos", "wpos", "cap")):
        C.require(fn)
        for st, b, i in mk(C):
            pos = C.sym("pos")
            if key == "wpos":
                st.assume_ge(pos - i["rpos"])
            for s, r in C.run(fn, [(st, [b, pos])]):
                f = same_state(C, s, b, i, "moving a position", (key, "err"))
                for t, k in cases(s, [[("ge", i[end] - pos)], [("ge", pos - i[end] - 1)]]):
                    if k == 0:
                        C.check(t, "post", t.eq(f[key], pos) and t.eq(f["err"], i["err"]), "%s moves to any valid position" % fn)
                    else:
                        C.check(t, "post", t.eq(f[key], i[key]) and t.ge(f["err"], 1),
                                "%s refuses and marks a position outside the buffer" % fn)
    for fn, key, end in (("sc_buf_mark_read", "rpos", "wpos"), ("sc_buf_mark_write", "wpos", "cap")):
        C.require(fn)
        for st, b, i in mk(C):
            n = C.sym("len")
            st.assume_ge(i[end] - i[key] - n)
            for s, r in C.run(fn, [(st, [b, n])]):
                f = same_state(C, s, b, i, "advancing a position", (key,))
                C.check(s, "post", s.eq(f[key], i[key] + n), "%s advances by the length given" % fn)


# length prefixes a peer may have sent
PREFIXES = [0, 1, 5, 255, 256, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 7, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 4099, 2 ** 64 - 4098,
            2 ** 64 - 4097, 2 ** 64 - 4096, 2 ** 64 - 9, 2 ** 64 - 2, 2 ** 64 - 1]
MARKER = 2 ** 64 - 1 - 4096


def strings(C):
    """a string read with each length prefix, against any amount of data behind it"""
    fn = "sc_buf_get_str"
    for L in PREFIXES:
        for st, b, i in mk(C, shapes=("heap", "ref"), bad=(0,)):
            st.assume_ge(i["wpos"] - i["rpos"], 8)
            C.E.write(st, i["mem"], i["rpos"], K(8), ("bytes", L.to_bytes(8, "little")))
            if L != MARKER:
                # the byte where the terminator belongs, when there is one
                t = st.fork()
                if t.cs.add_ge(i["wpos"] - i["rpos"] - 9 - L) and not t.cs.bot:
                    C.E.write(t, i["mem"], t.cs.norm(i["rpos"] + 8 + L), ONE, fresh("last", 1, 255))
                    for s, r in C.run(fn, [(t, [b])]):
                        f = fields(C, s, b)
                        C.check(s, "post", s.isnull(s.rp(r)) and s.ge(f["err"], 1), "a string without its terminator is refused and marked", "length %d" % L)
                        C.check(s, "post", s.eq(f["rpos"], i["rpos"]) and s.eq(f["wpos"], i["wpos"]), "a failed read consumes nothing", "length %d" % L)
                    t = st
                    st = st.fork()
                    if st.cs.add_ge(i["wpos"] - i["rpos"] - 9 - L) and not st.cs.bot:
                        C.E.write(st, i["mem"], st.cs.norm(i["rpos"] + 8 + L), ONE, ZERO)
                        starts = [st]
                    else:
                        starts = []
                    if t.cs.add_ge(i["rpos"] + 8 + L - i["wpos"]) and not t.cs.bot:
                        starts.append(t)
                else:
                    starts = [st]
            else:
                starts = [st]
            for s, r in C.run(fn, [(x, [b]) for x in starts]):
                f = fields(C, s, b)
                r = s.rp(r)
                room = i["wpos"] - i["rpos"] - 9 - L
                for t, k in cases(s, [[("ge", room)], [("ge", -room - 1)]]):
                    C.check(t, "post", t.eq(f["wpos"], i["wpos"]), "a read leaves the write position alone")
                    if L == MARKER:
                        C.check(t, "post", t.isnull(r) and t.eq(f["err"]) and t.eq(f["rpos"], i["rpos"] + 8),
                                "an absent string is read as NULL, without error")
                    elif k == 0:
                        C.check(t, "post", r.b == i["mem"] and t.eq(r.off, i["rpos"] + 8) and t.eq(f["err"]),
                                "a string that is all there is returned, without error", "length %d" % L)
                        C.check(t, "post", t.eq(f["rpos"], i["rpos"] + 9 + L),
                                "a string read consumes prefix, characters and terminator", "length %d" % L)
                    else:
                        C.check(t, "post", t.isnull(r) and t.ge(f["err"], 1),
                                "a string that is not all there is refused and marked", "length %d" % L)
                        C.check(t, "post", t.eq(f["rpos"], i["rpos"]), "a failed read consumes nothing", "length %d" % L)
    for st, b, i in mk(C):
        st.assume_ge(i["rpos"] + 7 - i["wpos"])
        for s, r in C.run(fn, [(st, [b])]):
            f = fields(C, s, b)
            C.check(s, "post", s.isnull(s.rp(r)) and s.ge(f["err"], 1) and s.eq(f["rpos"], i["rpos"]),
                    "a string without a whole prefix is refused, marked and not consumed")


def reads(C):
    """failed reads and the sticky error flag"""
    accessors(C)
    strings(C)
    alln = dict(GETS)
    alln.update(PEEKS)
    alln.update(PEEKAT)
    for fn, w in alln.items():
        C.require(fn)
        for st, b, i in mk(C):
            at = fn in PEEKAT
            pos = C.sym("pos") if at else i["rpos"]
            for s, r in C.run(fn, [(st, [b] + ([pos] if at else []))]):
                good = [("eq", i["err"]), ("ge", i["wpos"] - pos - w)]
                for t, k in cases(s, [good, [("ge", i["err"] - 1)], [("ge", pos - i["wpos"] + w - 1)]]):
                    f = fields(C, t, b)
                    nowrite(C, t, i, "a read")
                    C.check(t, "post", t.eq(f["wpos"], i["wpos"]), "a read leaves the write position alone")
                    if k == 0:
                        C.check(t, "post", t.eq(f["err"]), "a read within the data raises no error")
                        adv = w if fn in GETS else 0
                        C.check(t, "post", t.eq(f["rpos"], i["rpos"] + adv),
                                "a read consumes exactly the width of its type")
                    else:
                        C.check(t, "post", t.eq(f["rpos"], i["rpos"]), "a failed read consumes nothing")
                        C.check(t, "post", t.ge(f["err"], 1), "a failed read marks the buffer invalid")
                        if fn != "sc_buf_get_double":
                            C.check(t, "post", t.eq(r), "a failed read returns 0")
                        else:
                            C.check(t, "post", zero_double(C, t, r), "a failed read returns 0")
    # strings, blobs, raw data
    fn = "sc_buf_get_str"
    C.require(fn, "sc_buf_get_blob", "sc_buf_get_data", "sc_buf_peek_data")
    for st, b, i in mk(C):
        for s, r in C.run(fn, [(st, [b])]):
            f = fields(C, s, b)
            nowrite(C, s, i, "a read")
            C.check(s, "post", s.eq(f["wpos"], i["wpos"]), "a read leaves the write position alone")
            r = s.rp(r)
            for t, k in cases(s, [[("eq", i["err"])], [("ge", i["err"] - 1)]]):
                if k == 1:
                    C.check(t, "post", t.isnull(r), "a string read from an invalid buffer returns NULL")
                    C.check(t, "post", t.eq(f["rpos"], i["rpos"]), "a failed read consumes nothing")
                    C.check(t, "post", t.ge(f["err"], 1), "an error stays flagged")
                    continue
                if not C.null(t, r):
                    C.check(t, "post", t.eq(f["err"]), "a string is only returned without error")
                    C.check(t, "post", t.ge(f["wpos"], f["rpos"]), "a returned string lies inside the written data")
    fn = "sc_buf_get_blob"
    for st, b, i in mk(C):
        n = C.sym("len")
        for s, r in C.run(fn, [(st, [b, n])]):
            f = fields(C, s, b)
            r = s.rp(r)
            C.check(s, "post", s.eq(f["wpos"], i["wpos"]), "a read leaves the write position alone")
            for t, k in cases(s, [[("ge", n - 1), ("eq", i["err"]), ("ge", i["wpos"] - i["rpos"] - n)],
                                  [("ge", n - 1), ("ge", i["err"] - 1)],
                                  [("ge", n - 1), ("ge", n - i["wpos"] + i["rpos"] - 1)], [("eq", n)]]):
                if k == 0:
                    C.check(t, "post", r.b == i["mem"] and t.eq(r.off, i["rpos"]), "a blob read returns its first byte")
                    C.check(t, "post", t.eq(f["rpos"], i["rpos"] + n), "a blob read consumes its length")
                    C.check(t, "post", t.eq(f["err"]), "a read within the data raises no error")
                elif k == 3:
                    C.check(t, "post", t.eq(f["rpos"], i["rpos"]), "an empty blob read consumes nothing")
                else:
                    C.check(t, "post", t.isnull(r), "a failed blob read returns NULL")
                    C.check(t, "post", t.eq(f["rpos"], i["rpos"]), "a failed read consumes nothing")
                    C.check(t, "post", t.ge(f["err"], 1), "a failed read marks the buffer invalid")
    for fn in ("sc_buf_get_data", "sc_buf_peek_data"):
        for st, b, i in mk(C):
            n = C.sym("len", 0, PTRDIFF)
            d = C.block(st, "dest", n)
            peek = fn == "sc_buf_peek_data"
            pos = C.sym("pos") if peek else i["rpos"]
            for s, r in C.run(fn, [(st, [b] + ([pos] if peek else []) + [d, n])]):
                f = fields(C, s, b)
                nowrite(C, s, i, "a read")
                C.check(s, "post", s.eq(f["wpos"], i["wpos"]), "a read leaves the write position alone")
                good = [("eq", i["err"]), ("ge", i["wpos"] - pos - n), ("ge", n - 1)]
                for t, k in cases(s, [good, [("ge", i["err"] - 1), ("ge", n - 1)],
                                      [("ge", pos + n - i["wpos"] - 1), ("ge", n - 1)]]):
                    j = C.index(t, n)
                    v = C.byte(t, d, j)
                    if k == 0:
                        C.check(t, "post", t.eq(f["err"]), "a read within the data raises no error")
                        C.check(t, "post", t.eq(f["rpos"], i["rpos"] + (0 if peek else n)),
                                "a data read consumes its length")
                        if peek:
                            C.check(t, "post", t.eq(r, n), "a peek returns the length it read")
                        C.check(t, "post", C.same(t, v, C.byte(t, i["memp"], pos + j)),
                                "a data read copies the bytes at its position", "%s" % v)
                    else:
                        C.check(t, "post", t.eq(v), "a failed data read zeroes the destination")
                        C.check(t, "post", t.eq(f["rpos"], i["rpos"]), "a failed read consumes nothing")
                        C.check(t, "post", t.ge(f["err"], 1), "a failed read marks the buffer invalid")
                        if peek:
                            C.check(t, "post", t.eq(r), "a failed peek returns 0")
    # an error stays until the buffer is cleared; no typed write gets through meanwhile
    clears = ("sc_buf_clear", "sc_buf_term")
    quiet = set(PUTS) | set(SETS) | set(SETAT) | {"sc_buf_put_raw", "sc_buf_put_blob", "sc_buf_put_str_len",
                                                 "sc_buf_put_str", "sc_buf_put_fmt", "sc_buf_set_data"}
    for fn, mkargs in calls(C):
        if fn in clears:
            continue
        for st, b, i in mk(C, bad=(1,)):
            a = mkargs(st, b, i)
            for s, r in C.run(fn, [(st, [b] + a)]):
                f = fields(C, s, b)
                C.check(s, "post", s.ge(f["err"], 1), "an error stays flagged")
                if fn in quiet:
                    C.check(s, "post", s.eq(f["wpos"], i["wpos"]), "nothing is appended to an invalid buffer")


def zero_double(C, t, r):
    if isinstance(r, Lin) and t.eq(r):
        return True
    v = bits.unfold(t, r, 64) if isinstance(r, Lin) else None
    return bool(v is not None and all(x == 0 for x in v))


# ---------------------------------------------------------------- C03
def at(C, s, f, off, k=1):
    return C.byte(s, f["mem"], off)


def le(C, s, f, off, val, w, what):
    """bytes [off, off+w) of the storage are val, least significant first"""
    for n in range(w):
        x = at(C, s, f, off + n)
        ok = bits.samebyte(s, x, val, n)
        C.check(s, "wire", ok, "%s byte %d of %d is bits %d..%d of the value" % (what, n, w, 8 * n, 8 * n + 7),
                bits.show(bits.unfold(s, x, 8)))


def may(C, t, i, tot, err):
    """the states in which a write of tot bytes has no reason to fail"""
    alts = [[("eq", i["err"]), ("ge", i["cap"] - i["wpos"] - tot)]]
    if not i["ref"] and not t.g.get("allocfail"):
        top = i["cap"] + tot + 3 * 4096
        alts.append([("eq", i["err"]), ("ge", i["lim"] - top), ("ge", 2 ** 62 - top)])
    for u, k in cases(t, alts):
        C.check(u, "wire", u.eq(err), "a write fails only for lack of space or memory")


def only(C, s, i, f, lo, n, what):
    """a write in place touches nothing but its own bytes"""
    if i["mem"] is None:
        return
    j = C.index(s, i["cap"])
    if j is None:
        return
    pre = C.pre(s, i["mem"])
    for t, k in cases(s, [[("ge", lo - j - 1)], [("ge", j - lo - n)]]):
        C.check(t, "wire", C.same(t, at(C, t, f, j), C.byte(t, pre, j)), "%s leaves all other bytes alone" % what)


def fmtbytes(C, s, f, start, n, fmt, what):
    """n bytes from start are the complete output of one formatting of the given format"""
    j = C.index(s, n)
    if j is None:
        return
    a = s.norm(at(C, s, f, start + j))
    ok = False
    if len(a.t) == 1 and not a.c:
        d = lin.SYMS[a.t[0][0]].defn
        if d and d[0] == "havoc":
            by = dict(s.g.get("fmtptr", ()))
            for uid, rc, whole in s.g.get("fmt", ()):
                if uid == d[1]:
                    ok = whole and s.eq(rc, n) and s.eq(d[2], j) and uid in by and s.sameptr(by[uid], fmt)
    C.check(s, "wire", ok, what, "%s" % a)


def texts(C):
    """text is appended over the terminator of the text before it"""
    fn = "sc_buf_put_text"
    for st, b, i in mk(C, bad=(0,)):
        fmt = C.cstring(st, "fmt")[0]
        for s0, r in C.run(fn, [(st, [b, fmt])]):
            f = fields(C, s0, b)
            for s, k in cases(s0, [[("eq", f["err"]), ("eq", i["wpos"] - i["rpos"])],
                                   [("eq", f["err"]), ("ge", i["wpos"] - i["rpos"] - 1)], [("ge", f["err"] - 1)]]):
                if k == 2:
                    C.check(s, "wire", s.eq(f["rpos"], i["rpos"]) and s.eq(f["wpos"], i["wpos"]) or
                            s.eq(f["rpos"]) and s.eq(f["wpos"]), "a failed text append adds nothing: the buffer is as before or empty")
                    whole = [rc for uid, rc, w in s.g.get("fmt", ())]
                    if not s.g.get("fmtfail") and whole:
                        may(C, s, i, whole[-1] + 1, f["err"])
                    continue
                base = i["wpos"] - k
                n = f["wpos"] - base - 1
                C.check(s, "wire", s.ge(n), "appended text ends in its terminator")
                C.check(s, "wire", s.eq(f["rpos"], i["rpos"]), "a write leaves the read position alone")
                C.check(s, "wire", s.eq(at(C, s, f, base + n)), "appended text is NUL terminated")
                fmtbytes(C, s, f, base, n, fmt, "appended text is the formatted text, after the text before it")
                j = C.index(s, base)
                if j is not None and i["mem"] is not None:
                    C.check(s, "wire", C.same(s, at(C, s, f, j), C.byte(s, C.pre(s, i["mem"]), j)),
                            "text already in the buffer survives")


def wire(C):
    texts(C)
    for fn, w in list(PUTS.items()) + list(SETS.items()) + list(SETAT.items()):
        C.require(fn)
        put = fn in PUTS
        for st, b, i in mk(C, bad=(0,)):
            if fn.endswith("double"):
                val = fresh("dval")
            else:
                val = C.sym("val", 0, 1 if fn.endswith("bool") else 2 ** (8 * w) - 1)
            pos = C.sym("pos") if fn in SETAT else i["wpos"]
            args = [b] + ([pos] if fn in SETAT else []) + [val]
            for s, r in C.run(fn, [(st, args)]):
                f = fields(C, s, b)
                C.check(s, "wire", s.eq(f["rpos"], i["rpos"]), "a write leaves the read position alone")
                if put:
                    may(C, s, i, K(w), f["err"])
                else:
                    for t, k in cases(s, [[("ge", i["cap"] - pos - w)], [("ge", pos + w - i["cap"] - 1)]]):
                        if k == 0:
                            C.check(t, "wire", t.eq(f["err"]), "a write in place within the storage succeeds")
                            only(C, t, i, f, pos, w, "a write in place")
                        else:
                            C.check(t, "wire", t.ge(f["err"], 1) and t.eq(f["wpos"], i["wpos"]),
                                    "a write outside the storage is refused and marked")
                            nowrite(C, t, i, "a refused write", "wire")
                for t, k in cases(s, [[("eq", f["err"])]]):
                    le(C, t, f, pos, val, w, "stored")
                    C.check(t, "wire", t.eq(f["wpos"], i["wpos"] + (w if put else 0)),
                            "the write position moves by the width written")
    alln = dict(GETS)
    alln.update(PEEKS)
    alln.update(PEEKAT)
    for fn, w in alln.items():
        C.require(fn)
        for st, b, i in mk(C, shapes=("heap", "ref"), bad=(0,)):
            isat = fn in PEEKAT
            pos = C.sym("pos") if isat else i["rpos"]
            for s, r in C.run(fn, [(st, [b] + ([pos] if isat else []))]):
                f = fields(C, s, b)
                for t, k in cases(s, [[("eq", f["err"])]]):
                    if fn.endswith("bool"):
                        v = C.byte(t, i["memp"], pos)
                        for t2, k2 in cases(t, [[("eq", v)], [("ge", v - 1)]]):
                            C.check(t2, "wire", t2.eq(r, k2), "a bool reads as byte != 0")
                        continue
                    want = [(C.byte(t, i["memp"], pos + n), 8) for n in range(w)]
                    C.check(t, "wire", bits.sameparts(t, [(r, 8 * w)], want),
                            "the value read is its %d bytes, least significant first" % w, "%s" % r)
    # strings, blobs, raw data: contents at an arbitrary index
    C.require("sc_buf_put_str", "sc_buf_put_str_len", "sc_buf_put_raw", "sc_buf_put_blob", "sc_buf_set_data",
              "sc_buf_get_str", "sc_buf_move", "sc_buf_compact", "sc_buf_put_fmt", "sc_buf_put_text")
    for fn in ("sc_buf_put_str", "sc_buf_put_str_len", "sc_buf_put_raw", "sc_buf_put_blob", "sc_buf_set_data"):
        for isnull in (False, True):
            if isnull and not fn.startswith("sc_buf_put_str"):
                continue
            for st, b, i in mk(C, bad=(0,)):
                pos = i["wpos"]
                if fn == "sc_buf_put_str":
                    src, n = C.cstring(st, "str")
                    args = [src]
                else:
                    n = C.sym("len", 0, PTRDIFF)
                    src = C.block(st, "src", n)
                    args = [src, n]
                if fn == "sc_buf_set_data":
                    pos = C.sym("pos")
                    args = [pos] + args
                if isnull:
                    args = [NULL] + args[1:]
                pfx = 0 if fn in ("sc_buf_put_raw", "sc_buf_set_data") else 8
                nul = 1 if fn in ("sc_buf_put_str", "sc_buf_put_str_len") else 0
                for s, r in C.run(fn, [(st, [b] + args)]):
                    f = fields(C, s, b)
                    C.check(s, "wire", s.eq(f["rpos"], i["rpos"]), "a write leaves the read position alone")
                    if fn == "sc_buf_set_data":
                        for t, k in cases(s, [[("ge", i["cap"] - pos - n)], [("ge", pos + n - i["cap"] - 1)]]):
                            if k == 0:
                                C.check(t, "wire", t.eq(f["err"]) and t.eq(r, n), "a write in place within the storage succeeds")
                                only(C, t, i, f, pos, n, "a write in place")
                            else:
                                C.check(t, "wire", t.ge(f["err"], 1) and t.eq(r),
                                        "a write outside the storage is refused and marked")
                                nowrite(C, t, i, "a refused write", "wire")
                    else:
                        may(C, s, i, K(8) if isnull else n + pfx + nul, f["err"])
                    for t, k in cases(s, [[("eq", f["err"])]]):
                        if isnull:
                            C.check(t, "wire", t.eq(f["wpos"], i["wpos"] + 8), "a NULL string takes a length prefix only")
                            le(C, t, f, pos, K(2 ** 64 - 1 - 4096), 8, "NULL marker")
                            continue
                        tot = n + pfx + nul
                        if fn == "sc_buf_set_data":
                            tot = ZERO
                        C.check(t, "wire", t.eq(f["wpos"], i["wpos"] + tot),
                                "the write position moves by prefix + data + terminator")
                        if pfx:
                            le(C, t, f, pos, n, 8, "length prefix")
                        if nul:
                            C.check(t, "wire", t.eq(at(C, t, f, pos + pfx + n)), "a stored string is NUL terminated")
                        j = C.index(t, n)
                        if j is not None:
                            C.check(t, "wire", C.same(t, at(C, t, f, pos + pfx + j), C.byte(t, src, j)),
                                    "stored byte j is source byte j")
    for st, b, i in mk(C, bad=(0,)):
        for s, r in C.run("sc_buf_get_str", [(st, [b])]):
            f = fields(C, s, b)
            r = s.rp(r)
            if C.null(s, r):
                continue
            lenb = [(C.byte(s, i["memp"], i["rpos"] + n), 8) for n in range(8)]
            C.check(s, "wire", r.b == i["mem"] and s.eq(r.off, i["rpos"] + 8), "a string starts after its length prefix")
            C.check(s, "wire", bits.sameparts(s, [(f["rpos"] - i["rpos"] - 9, 64)], lenb),
                    "reading a string consumes prefix + length + terminator", "%s" % (f["rpos"] - i["rpos"]))
    # compaction and moves keep the unread bytes
    for fn in ("sc_buf_compact", "sc_buf_shrink"):
        for st, b, i in mk(C):
            args = [b] + ([C.sym("len")] if fn == "sc_buf_shrink" else [])
            for s, r in C.run(fn, [(st, args)]):
                f = fields(C, s, b)
                C.check(s, "wire", s.eq(f["wpos"] - f["rpos"], i["wpos"] - i["rpos"]),
                        "unread size is unchanged by compaction")
                C.check(s, "wire", s.eq(f["rpos"]), "compaction moves the unread data to the front")
                j = C.index(s, i["wpos"] - i["rpos"])
                if j is not None and i["mem"] is not None:
                    pre = C.pre(s, i["mem"])
                    C.check(s, "wire", C.same(s, at(C, s, f, f["rpos"] + j), C.byte(s, pre, i["rpos"] + j)),
                            "unread byte j survives compaction")
    for st0, b0, i0 in mk(C, bad=(0,)):
        for st, b, i in mk2(C, st0):
            for s, r in C.run("sc_buf_move", [(st, [b, b0])]):
                f = fields(C, s, b)
                f0 = fields(C, s, b0)
                moved = f["wpos"] - i["wpos"]
                C.check(s, "wire", s.eq(f0["rpos"] - i0["rpos"], moved), "bytes consumed equal bytes appended")
                C.check(s, "wire", s.eq(f0["wpos"], i0["wpos"]), "the source keeps its write position")
                for t, k in cases(s, [[("eq", f["err"])]]):
                    for t2, k2 in cases(t, [[("ge", f["cap"] - f["wpos"] - 1)], [("eq", f["cap"] - f["wpos"])]]):
                        if k2 == 0:
                            C.check(t2, "wire", t2.eq(f0["rpos"], i0["wpos"]), "everything that fits is moved")
                j = C.index(s, moved)
                if j is not None:
                    C.check(s, "wire", C.same(s, at(C, s, f, i["wpos"] + j), C.byte(s, i0["memp"], i0["rpos"] + j)),
                            "moved byte j is source byte j")
    # formatted text
    for st, b, i in mk(C, bad=(0,)):
        fmt = C.cstring(st, "fmt")[0]
        for s, r in C.run("sc_buf_put_fmt", [(st, [b, fmt])]):
            f = fields(C, s, b)
            C.check(s, "wire", s.eq(f["rpos"], i["rpos"]), "a write leaves the read position alone")
            whole = [rc for uid, rc, w in s.g.get("fmt", ())]
            if not s.g.get("fmtfail") and whole:
                may(C, s, i, whole[-1] + 9, f["err"])
            for t, k in cases(s, [[("eq", f["err"])]]):
                n = f["wpos"] - i["wpos"] - 9
                C.check(t, "wire", t.ge(n), "formatted text carries prefix and terminator")
                le(C, t, f, i["wpos"], n, 8, "length prefix")
                C.check(t, "wire", t.eq(at(C, t, f, i["wpos"] + 8 + n)), "formatted text is NUL terminated")
                fmtbytes(C, t, f, i["wpos"] + 8, n, fmt, "formatted text is the output of the caller's format")


def mk2(C, st0):
    out = []
    for st, b, i in mk(C, base=st0):
        out.append((st, b, i))
    return out


# ---------------------------------------------------------------- C04
def unlimited(C, s, f):
    for t, v in C.E.norm_u(s, f["lim"], 64):
        C.check(t, "post", t.ge(v, 2 ** 63), "a new buffer has no limit", "%s" % v)


def growth(C):
    grow = set(PUTS) | {"sc_buf_reserve", "sc_buf_shrink", "sc_buf_put_raw", "sc_buf_put_blob", "sc_buf_put_str_len",
                        "sc_buf_put_str", "sc_buf_put_fmt", "sc_buf_put_text"}
    for fn, mkargs in calls(C):
        if fn == "sc_buf_term":
            continue
        for st, b, i in mk(C):
            a = mkargs(st, b, i)
            for s, r in C.run(fn, [(st, [b] + a)]):
                f = fields(C, s, b)
                for x in C.leaks(s, [b]):
                    C.check(s, "leak", False, "no storage is lost", x.name)
                if i["ref"]:
                    C.check(s, "own", s.sameptr(f["mem"], Ptr(i["mem"] if i["mem"] is not None else NULLB, K(0))) and
                            s.eq(f["cap"], i["cap"]) and s.eq(f["ref"], 1),
                            "referenced memory is never replaced or resized")
                if fn not in grow:
                    C.check(s, "own", s.sameptr(f["mem"], Ptr(i["mem"] if i["mem"] is not None else NULLB, K(0))) and
                            s.eq(f["cap"], i["cap"]), "only writes, reserve and shrink change the storage")
                    continue
                for t, k in cases(s, [[("ge", f["cap"] - i["cap"] - 1)]]):
                    C.check(t, "limit", t.ge(f["lim"], f["cap"]), "growth never exceeds the limit",
                            "cap=%s limit=%s" % (f["cap"], f["lim"]))
                C.check(s, "own", s.eq(f["lim"], i["lim"]) or fn == "sc_buf_limit", "the limit only changes on request")
                if i["mem"] is not None and fn not in ("sc_buf_put_text", "sc_buf_shrink"):
                    j = C.index(s, i["wpos"])
                    if j is not None:
                        C.check(s, "keep", C.same(s, at(C, s, f, j), C.byte(s, C.pre(s, i["mem"]), j)),
                                "bytes already written survive growth")
                if fn == "sc_buf_reserve":
                    n = a[0]
                    C.check(s, "post", s.eq(f["rpos"], i["rpos"]) and s.eq(f["wpos"], i["wpos"]),
                            "reserve leaves the positions alone")
                    for t, k in cases(s, [[("ge", r - 1)], [("eq", r)]]):
                        if k == 0:
                            C.check(t, "post", t.ge(f["cap"] - f["wpos"], n), "a successful reserve makes room",
                                    "cap=%s wpos=%s n=%s" % (f["cap"], f["wpos"], n))
                            C.check(t, "post", t.eq(f["err"], i["err"]), "a successful reserve raises no error")
                        else:
                            C.check(t, "post", t.ge(f["err"], 1), "a failed reserve marks the buffer invalid")
                            C.check(t, "post", t.eq(f["cap"], i["cap"]), "a failed reserve keeps the capacity")
                            alts = [[("ge", i["cap"] - i["wpos"] - n)]]
                            if not i["ref"] and not t.g.get("allocfail"):
                                top = i["cap"] + n + 4096
                                alts.append([("ge", i["lim"] - top), ("ge", 2 ** 62 - top)])
                            for u, k2 in cases(t, alts):
                                C.check(u, "post", False, "a reserve fails only at the limit or for lack of memory")
                if fn == "sc_buf_shrink":
                    n = a[0]
                    C.check(s, "post", s.ge(i["cap"], f["cap"]), "shrinking never grows the storage")
                    for t, k in cases(s, [[("ge", r - 1)], [("eq", r)]]):
                        if k == 1:
                            C.check(t, "post", bool(t.g.get("allocfail")) and t.ge(f["err"], 1) and t.eq(f["cap"], i["cap"]),
                                    "a shrink fails only for lack of memory, marks the buffer and keeps its storage")
                            continue
                        C.check(t, "post", not t.g.get("allocfail") and t.eq(f["err"], i["err"]),
                                "a successful shrink raises no error")
                        for u, k2 in cases(t, [[("ge", f["cap"] - i["cap"])], [("ge", i["cap"] - f["cap"] - 1)]]):
                            if k2:
                                C.check(u, "post", u.ge(f["cap"], n), "storage shrinks to the size asked for or more")
                                continue
                            if not i["ref"]:
                                for v, k3 in cases(u, [[("ge", i["cap"] - n - 4096), ("ge", n - i["wpos"] + i["rpos"] - 1)]]):
                                    C.check(v, "post", False, "storage with more than a page to spare shrinks")
    lifecycle(C)


def lifecycle(C):
    """construction and destruction"""
    C.require("sc_buf_init", "sc_buf_term", "sc_buf_wrap")
    st = State()
    b = C.new_struct(st, S, "b")
    n = C.sym("cap")
    for s, r in C.run("sc_buf_init", [(st, [b, n])]):
        f = inv(C, s, b)
        C.check(s, "post", s.eq(f["rpos"]) and s.eq(f["wpos"]) and s.eq(f["err"]) and s.eq(f["ref"]),
                "a new buffer is empty and valid")
        for x in C.leaks(s, [b]):
            C.check(s, "leak", False, "no storage is lost", x.name)
        for t, k in cases(s, [[("ge", r - 1)], [("eq", r)]]):
            if k == 0:
                C.check(t, "post", t.eq(f["cap"], n), "a new buffer has the capacity asked for")
                unlimited(C, t, f)
            else:
                C.check(t, "post", bool(t.g.get("allocfail")), "init fails only for lack of memory")
                C.check(t, "post", t.eq(f["cap"]) and t.isnull(f["mem"]), "a failed init leaves an empty buffer")
    for st, b, i in mk(C):
        for s, r in C.run("sc_buf_term", [(st, [b])]):
            f = inv(C, s, b)
            if i["mem"] is not None:
                live = s.mem[i["mem"]].live
                C.check(s, "own", live if i["ref"] else not live, "term frees owned storage and only owned storage")
            C.check(s, "post", s.isnull(f["mem"]) and s.eq(f["cap"]) and s.eq(f["wpos"]) and s.eq(f["rpos"]),
                    "a terminated buffer is empty")
    for flag in (0, 8, 16, 24):
        for null in (False, True):
            st = State()
            b = C.new_struct(st, S, "b")
            n = ZERO if null else C.sym("len", 0, PTRDIFF)
            mem = NULL if null else C.block(st, "data", n, "borrowed" if flag & 8 else "heap")
            for s, r in C.run("sc_buf_wrap", [(st, [b, mem, n, K(flag)])]):
                f = inv(C, s, b)
                C.check(s, "post", s.sameptr(f["mem"], mem) and s.eq(f["cap"], n), "a wrapped buffer is the caller's memory")
                C.check(s, "post", s.eq(f["wpos"], n if flag & 16 else ZERO) and s.eq(f["rpos"]) and s.eq(f["err"]),
                        "a wrapped buffer holds the caller's data or none, as the flag says")
                C.check(s, "post", s.eq(f["ref"], 1 if flag & 8 else 0), "memory is only referenced when the flag says so")
                if not flag & 8:
                    unlimited(C, s, f)


def lengths(C):
    """the length helpers announce what the put functions append (see wire)"""
    for nm, w, v in (("bool", 1, C.sym("v", 0, 1)), ("8", 1, C.sym("v", 0, U8)), ("16", 2, C.sym("v", 0, U16)),
                     ("32", 4, C.sym("v", 0, U32)), ("64", 8, C.sym("v")), ("double", 8, fresh("dv"))):
        for s, r in C.run("w_len_" + nm, [(State(), [v])]):
            C.check(s, "wire", s.eq(r, w), "the announced length of a value is the width written")
    st = State()
    n = C.sym("len", 0, PTRDIFF)
    for s, r in C.run("w_len_blob", [(st, [C.block(st, "src", n), n])]):
        C.check(s, "wire", s.eq(r, n + 8), "the announced length of a blob is prefix + data")
    st = State()
    src, n = C.cstring(st, "str")
    for s, r in C.run("w_len_str", [(st, [src])]):
        C.check(s, "wire", s.eq(r, n + 9), "the announced length of a string is prefix + characters + terminator")
    for s, r in C.run("w_len_str", [(State(), [NULL])]):
        C.check(s, "wire", s.eq(r, 8), "the announced length of an absent string is its prefix")
