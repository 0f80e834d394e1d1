"""The logging macros and sc_min/sc_max, through their uses in witness/log.c."""
from ..spec import *
from .. import lin, models
from .util import text_of
from .log import NAMES

LEVELS = ("debug", "info", "warn", "error")


def post(C, s, cond, msg, detail=None):
    return C.check(s, "post", cond, msg, detail)


def m_log(E, st, a, inst):
    r = fresh("rc", -2 ** 31, 2 ** 31 - 1)
    st.g["said"] = st.g.get("said", ()) + ((tuple(st.norm(x) if isinstance(x, Lin) else st.rp(x) for x in a), r),)
    return [(st, r)]


def m_strrchr(E, st, a, inst):
    text, c = text_of(E, st, st.rp(a[0])), st.const(E.as_int(st, a[1]))
    if text is None or c is None:
        return models.M["strrchr"](E, st, a, inst)
    i = text.rfind(chr(c & 255))
    p = st.rp(a[0])
    return [(st, NULL if i < 0 else Ptr(p.b, p.off + i))]


MODELS = {"sc_log_log": m_log, "strrchr": m_strrchr}


def uses(C, named):
    """every macro hands the logger its level, the caller's format and the caller's arguments in order"""
    E = C.E
    for lv, nm in enumerate(LEVELS):
        for args in (False, True):
            fn = "w_%s_%s" % (nm, "args" if args else "plain")
            C.require(fn)
            st = State()
            a = fresh("a", -2 ** 31, 2 ** 31 - 1)
            s, p = Ptr(("p", lin.new_sym("s"))), Ptr(("p", lin.new_sym("p")))
            given = [a, s, p] if args else []
            fmt = "a %d s %s p %p\n" if args else "plain\n"
            for t, r in C.run(fn, [(st, given)]):
                said = t.g.get("said", ())
                post(C, t, len(said) == 1, "sc_log_%s logs once" % nm)
                if len(said) != 1:
                    continue
                g, rc = said[0]
                post(C, t, t.eq(E.as_int(t, r), rc), "sc_log_%s returns what the logger returned" % nm)
                post(C, t, t.eq(E.as_int(t, g[0]), lv), "sc_log_%s logs at its own level" % nm, "%s" % (g[0],))
                text = text_of(E, t, g[1]) if isinstance(g[1], Ptr) else None
                rest = list(g[2:])
                if named:
                    post(C, t, text == "(%s:%d) " + fmt, "sc_log_%s puts file name and line before the message" % nm, repr(text))
                    if len(rest) < 2 or not isinstance(rest[0], Ptr):
                        post(C, t, False, "sc_log_%s gives file name and line" % nm, repr(rest))
                        continue
                    line = t.const(E.as_int(t, rest[1]))
                    post(C, t, line is not None and 0 < line < 100, "sc_log_%s gives the line it stands on" % nm, repr(rest[1]))
                    file = text_of(E, t, t.rp(rest[0]))
                    post(C, t, None if file is None else file == "log.c", "sc_log_%s gives the name of its file" % nm, repr(file))
                    rest = rest[2:]
                else:
                    post(C, t, text == fmt, "sc_log_%s hands on the caller's format" % nm, repr(text))
                ok = len(rest) >= len(given)
                for x, y in zip(given, rest):
                    if isinstance(x, Ptr):
                        ok = ok and isinstance(y, Ptr) and t.rp(y) == t.rp(x)
                    else:
                        ok = ok and isinstance(y, Lin) and bool(t.eq(y, x))
                post(C, t, ok, "sc_log_%s hands on the caller's arguments in order" % nm, repr(rest))


def minmax(C):
    E = C.E
    for sgn, lo, hi in (("s", -2 ** 63, 2 ** 63 - 1), ("u", 0, 2 ** 64 - 1)):
        for big in (True, False):
            fn = "w_%s_%s" % ("max" if big else "min", sgn)
            C.require(fn)
            st = State()
            a, b = fresh("a", lo, hi), fresh("b", lo, hi)
            for s, r in C.run(fn, [(st, [a, b])]):
                for t, v in (E.norm_s if sgn == "s" else E.norm_u)(s, E.as_int(s, r), 64):
                    for u, o in cases(t, [[("ge", a - b)], [("ge", b - a - 1)]]):
                        want = a if (o == 0) == big else b
                        post(C, u, u.eq(v, want), "sc_%s gives the %s of the two" % (("max", "larger") if big else ("min", "smaller")),
                             "%s" % u.cs.norm(v))
