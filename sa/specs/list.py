"""Doubly linked list: shape analysis over every ring a straight-line operation
can tell apart (all alias patterns of the nodes it can reach)."""
from ..spec import *
import itertools
S = "sc_list"


def ring(C, st, n):
    """list head and n linked elements"""
    head = C.new_struct(st, S, "l")
    el = [C.new_struct(st, S, "e%d" % i) for i in range(n)]
    seq = [head] + el
    for i, p in enumerate(seq):
        C.put(st, p, S, "next", seq[(i + 1) % len(seq)])
        C.put(st, p, S, "prev", seq[i - 1])
    return head, el


def single(C, st, name="x"):
    p = C.new_struct(st, S, name)
    C.put(st, p, S, "next", p)
    C.put(st, p, S, "prev", p)
    return p


def walk(C, st, head, field, limit):
    out = []
    p = C.getp(st, head, S, field)
    while not st.sameptr(p, head) and len(out) <= limit:
        out.append(p.b)
        if isinstance(p.b, tuple) or p.b == NULLB or not st.eq(p.off):
            out.append(None)
            break
        p = C.getp(st, p, S, field)
    return out


def expect(C, s, head, order, alone, what):
    """the list is exactly `order`; nodes in `alone` are self-linked"""
    want = [p.b for p in order]
    f = walk(C, s, head, "next", len(want) + 1)
    r = walk(C, s, head, "prev", len(want) + 1)
    C.check(s, "list", f == want, "%s: forward order" % what)
    C.check(s, "list", r == want[::-1], "%s: backward order mirrors forward order" % what)
    for p in alone:
        C.check(s, "list", s.sameptr(C.getp(s, p, S, "next"), p) and s.sameptr(C.getp(s, p, S, "prev"), p),
                "%s: a removed element is unlinked" % what)


def run(C):
    C.widths("list")
    C.require("sc_list_init", "sc_list_clear", "sc_list_is_empty", "sc_list_count", "sc_list_head", "sc_list_tail",
              "sc_list_add_head", "sc_list_add_tail", "sc_list_pop_head", "sc_list_pop_tail", "sc_list_add_after",
              "sc_list_add_before", "sc_list_del")
    st = State()
    h = C.new_struct(st, S, "l")
    for s, r in C.run("sc_list_init", [(st, [h])]):
        expect(C, s, h, [], [], "init")
    for n in range(0, 5):
        def rng():
            st = State()
            h, el = ring(C, st, n)
            return st, h, el
        st, h, el = rng()
        for s, r in C.run("sc_list_is_empty", [(st.fork(), [h])]):
            C.check(s, "list", s.eq(r, 1 if n == 0 else 0), "is_empty tells whether there are elements")
        for s, r in C.run("sc_list_count", [(st.fork(), [h])]):
            C.check(s, "list", s.eq(r, n), "count is the number of elements")
        for fn, i in (("sc_list_head", 0), ("sc_list_tail", -1)):
            for s, r in C.run(fn, [(st.fork(), [h])]):
                C.check(s, "list", (s.sameptr(r, el[i]) if n else s.isnull(r)), "%s element or NULL" % fn[8:])
                expect(C, s, h, el, [], "a query")
        for s, r in C.run("sc_list_clear", [(st.fork(), [h])]):
            expect(C, s, h, [], el, "clear")
        for fn, i in (("sc_list_pop_head", 0), ("sc_list_pop_tail", -1)):
            for s, r in C.run(fn, [(st.fork(), [h])]):
                if n == 0:
                    C.check(s, "list", s.isnull(r), "popping an empty list returns NULL")
                    expect(C, s, h, [], [], "pop")
                else:
                    C.check(s, "list", s.sameptr(r, el[i]), "pop returns the end element")
                    rest = el[1:] if i == 0 else el[:-1]
                    expect(C, s, h, rest, [el[i]], "pop")
        # deletion
        for i in range(n):
            for lst in (h, NULL):
                for s, r in C.run("sc_list_del", [(st.fork(), [lst, el[i]])]):
                    expect(C, s, h, el[:i] + el[i + 1:], [el[i]], "del")
                    if lst is h:
                        for s2, _ in C.run("sc_list_del", [(s, [lst, el[i]])]):
                            expect(C, s2, h, el[:i] + el[i + 1:], [el[i]], "del of an unlinked element")
        # insertion of a fresh element and of one already linked
        for who in [None] + list(range(n)):
            t = st.fork()
            x = single(C, t) if who is None else el[who]
            base = [p for p in el if p.b != x.b]
            for s, r in C.run("sc_list_add_head", [(t.fork(), [h, x])]):
                expect(C, s, h, [x] + base, [], "add_head")
            for s, r in C.run("sc_list_add_tail", [(t.fork(), [h, x])]):
                expect(C, s, h, base + [x], [], "add_tail")
            for k, q in enumerate([h] + base):
                for s, r in C.run("sc_list_add_after", [(t.fork(), [h, q, x])]):
                    expect(C, s, h, base[:k] + [x] + base[k:], [], "add_after")
                if q is h:
                    want = base + [x]
                else:
                    want = base[:k - 1] + [x] + base[k - 1:]
                for s, r in C.run("sc_list_add_before", [(t.fork(), [h, q, x])]):
                    expect(C, s, h, want, [], "add_before")
        # moving an element between two lists
        if n:
            t = st.fork()
            h2, el2 = ring(C, t, 2)
            for s, r in C.run("sc_list_add_tail", [(t, [h2, el[0]])]):
                expect(C, s, h2, el2 + [el[0]], [], "move to another list")
                expect(C, s, h, el[1:], [], "move from a list")
        # iteration macros
        for fn, order, left in (("w_foreach", el, el), ("w_foreach_r", el[::-1], el), ("w_foreach_safe", el, []),
                                ("w_foreach_safe_r", el[::-1], [])):
            for s, r in C.finish(fn, [(st.fork(), [h])], "list", "iteration ends after the last element"):
                C.check(s, "list", list(s.g.get("visits", ())) == [p.b for p in order],
                        "%s visits every element once, in order" % fn[2:])
                expect(C, s, h, left, [p for p in el if p not in left], fn[2:])
            fl = fn.replace("foreach", "leave")
            for s, r in C.finish(fl, [(st.fork(), [h])], "list", "iteration ends after the last element"):
                w = C.leaving(s, n)
                C.check(s, "list", w is not None and list(s.g.get("visits", ())) == [order[k].b for k in w],
                        "break and continue work in an iteration")
                expect(C, s, h, el, [], fl[2:])
    st = State()
    box = C.new_struct(st, "w_box", "box")
    off, _ = C.foff("w_box", "link")
    for s, r in C.run("w_entry", [(st, [Ptr(box.b, K(off))])]):
        r = s.rp(r)
        C.check(s, "list", r.b == box.b and s.eq(r.off), "sc_list_entry recovers the container")


def visit(E, st, a, inst):
    st.g["visits"] = st.g.get("visits", ()) + (st.rp(a[0]).b,)
    return [(st, None)]


MODELS = {"w_visit": visit, "w_choose": choose}
