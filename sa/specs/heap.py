"""Binary heap: every shape of up to N elements, keys known only by the heap
order (the code touches keys through comparisons alone)."""
from ..spec import *
S = "sc_heap"
SZ = 16


def mk(C, n, kind="heap"):
    st = State()
    h = C.new_struct(st, S, "h")
    cap = C.sym("cap", n + 1, 2 ** 57)
    mem = C.block(st, "elems", cap.scale(SZ), "heap")
    C.put(st, h, S, "cap", cap)
    C.put(st, h, S, "size", K(n))
    C.put(st, h, S, "elems", mem)
    ko, _ = C.foff("sc_heap_data", "key")
    do, _ = C.foff("sc_heap_data", "data")
    items = {}
    keys = [None]
    for i in range(1, n + 1):
        k = fresh("key%d" % i, -2 ** 63, 2 ** 63 - 1)
        d = Ptr(("p", lin.new_sym("data%d" % i)))
        C.E.write(st, mem.b, K(i * SZ + ko), K(8), k)
        C.E.write(st, mem.b, K(i * SZ + do), K(8), d)
        items[d.b] = k
        keys.append(k)
        if i > 1:
            st.assume_ge(k, keys[i // 2])
    return st, h, dict(cap=cap, mem=mem, items=items, keys=keys)


def elem(C, s, mem, i):
    ko, _ = C.foff("sc_heap_data", "key")
    do, _ = C.foff("sc_heap_data", "data")
    k = C.E.read(s, mem.b, s.cs.norm(mem.off + i * SZ + ko), 8, I(64))
    d = s.rp(C.E.read(s, mem.b, s.cs.norm(mem.off + i * SZ + do), 8, PTR))
    return k, d


def signed(C, s, k):
    """the key as a signed number"""
    r = C.E.norm_s(s, k, 64)
    return r[0] if len(r) == 1 else (s, k)


def wf(C, s, h, items, what):
    """the heap holds exactly `items` ({data: key}) in heap order"""
    n = len(items)
    size, cap = s.norm(C.get(s, h, S, "size")), s.norm(C.get(s, h, S, "cap"))
    mem = C.getp(s, h, S, "elems")
    C.check(s, "order", s.eq(size, n), "%s: element count" % what, "%s" % size)
    if C.null(s, mem):
        C.check(s, "inv", s.eq(cap) and n == 0, "no storage means an empty heap")
        return
    r = s.mem[mem.b]
    C.check(s, "inv", r.live and s.ge(r.size, cap.scale(SZ)) and s.ge(cap, size + 1), "elements fit the storage")
    if s.const(size) != n:
        return
    keys = [None]
    left = dict(items)
    okset = True
    for i in range(1, n + 1):
        k, d = elem(C, s, mem, i)
        s, k = signed(C, s, k)
        keys.append(k)
        want = left.pop(d.b, None)
        if want is None or not s.eq(k, want):
            okset = False
    C.check(s, "order", okset, "%s: exactly the expected elements remain, each with its key" % what)
    if okset:
        C.check(s, "order", all(s.ge(keys[i], keys[i // 2]) for i in range(2, n + 1)),
                "%s: every parent is at most its children" % what)


def big(C):
    """growth and the limit of a heap of any size: the storage must always cover
    the capacity recorded, whatever the number of elements"""
    st = State()
    h = C.new_struct(st, S, "h")
    cap = C.sym("cap", 1, 2 ** 53)     # what an address space of 2^57 bytes can hold
    size = C.sym("size", 0, 2 ** 53)
    st.assume_ge(cap, size + 1)
    mem = C.block(st, "elems", cap.scale(SZ), "heap")
    C.put(st, h, S, "cap", cap)
    C.put(st, h, S, "size", size)
    C.put(st, h, S, "elems", mem)
    k = fresh("key", -2 ** 63, 2 ** 63 - 1)
    d = Ptr(("p", lin.new_sym("data")))
    for s, r in C.run("sc_heap_add", [(st, [h, k, d])]):
        C.check(s, "leak", not C.leaks(s, [h]), "add leaks nothing")
        m = C.getp(s, h, S, "elems")
        for t, o in cases(s, [[("eq", r)], [("ge", r - 1)]]):
            c, n = C.get(t, h, S, "cap"), C.get(t, h, S, "size")
            if C.null(t, m):
                C.check(t, "inv", False, "growth keeps the storage")
                continue
            C.check(t, "inv", t.mem[m.b].live and t.ge(t.mem[m.b].size, c.scale(SZ)), "storage covers the capacity",
                    "storage %s, capacity %s" % (t.mem[m.b].size, c))
            C.check(t, "inv", t.ge(c, n + 1), "elements fit the storage")
            if o == 0:
                C.check(t, "post", t.eq(c, cap) and t.eq(n, size) and t.sameptr(m, mem), "a failed add leaves the heap unchanged")
                C.check(t, "post", t.g.get("allocfail", 0) > 0,
                        "add only fails when memory fails")
            else:
                C.check(t, "order", t.eq(n, size + 1), "add grows the heap by one")
                C.check(t, "post", not t.g.get("allocfail"), "a failed allocation is reported")


def limited(C, limit):
    """built with SC_HEAP_MAX elements as the maximum"""
    for n in range(limit + 1):
        st, h, i = mk(C, n)
        st.assume_ge(K(limit), i["cap"])
        k = fresh("key", -2 ** 63, 2 ** 63 - 1)
        d = Ptr(("p", lin.new_sym("data")))
        if st.cs.bot:
            continue
        for s, r in C.run("sc_heap_add", [(st, [h, k, d])]):
            for t, o in cases(s, [[("eq", r)], [("ge", r - 1)]]):
                cap = C.get(t, h, S, "cap")
                if o == 0:
                    C.check(t, "post", t.g.get("allocfail", 0) > 0 or t.ge(i["cap"].scale(2) + 1, limit),
                            "add only fails when memory fails or the configured maximum is reached")
                    wf(C, t, h, i["items"], "failed add")
                else:
                    C.check(t, "inv", t.ge(K(limit), cap), "the configured maximum is kept", "%s" % cap)
                    wf(C, t, h, dict(list(i["items"].items()) + [(d.b, k)]), "add")
    cap = C.sym("cap")
    st = State()
    h = C.new_struct(st, S, "h")
    for s, r in C.run("sc_heap_init", [(st, [h, cap])]):
        for t, o in cases(s, [[("eq", r)], [("ge", r - 1)]]):
            if o == 0:
                C.check(t, "post", t.g.get("allocfail", 0) > 0 or t.ge(cap, limit + 1), "init only fails when memory fails or the configured maximum is exceeded")
            else:
                C.check(t, "inv", t.ge(K(limit), C.get(t, h, S, "cap")), "the configured maximum is kept")


def run(C, maxn):
    C.widths("order")
    C.require("sc_heap_init", "sc_heap_term", "sc_heap_size", "sc_heap_clear", "sc_heap_add", "sc_heap_peek", "sc_heap_pop")
    st = State()
    h = C.new_struct(st, S, "h")
    cap = C.sym("cap")
    for s, r in C.run("sc_heap_init", [(st, [h, cap])]):
        for t, o in cases(s, [[("eq", r)], [("ge", r - 1)]]):
            C.check(t, "post", t.eq(C.get(t, h, S, "size")), "a new heap is empty")
            C.check(t, "leak", not C.leaks(t, [h]), "init leaks nothing")
            if o == 0:
                C.check(t, "post", t.g.get("allocfail", 0) > 0 or t.ge(cap, 2 ** 59),
                        "init only fails when memory fails or the capacity is absurd")
                continue
            mem = C.getp(t, h, S, "elems")
            for u, z in cases(t, [[("eq", cap)], [("ge", cap - 1)]]):
                if z == 0:
                    C.check(u, "post", C.null(u, mem) and u.eq(C.get(u, h, S, "cap")), "a heap of capacity zero has no storage")
                elif not C.null(u, mem):
                    C.check(u, "inv", u.ge(u.mem[mem.b].size, C.get(u, h, S, "cap").scale(SZ)), "storage covers the capacity")
                    C.check(u, "post", u.ge(C.get(u, h, S, "cap"), cap), "storage for the capacity asked for is reserved")
                else:
                    C.check(u, "post", False, "storage for the capacity asked for is reserved")
            C.check(t, "post", not t.g.get("allocfail"), "a failed allocation is reported")
    big(C)
    # a heap without storage
    def empty():
        st = State()
        h = C.new_struct(st, S, "h")
        C.put(st, h, S, "cap", ZERO)
        C.put(st, h, S, "size", ZERO)
        C.put(st, h, S, "elems", NULL)
        return st, h, dict(items={}, mem=NULL, cap=ZERO)
    for n in [None] + list(range(maxn + 1)):
        st, h, i = empty() if n is None else mk(C, n)
        n = n or 0
        k = fresh("key", -2 ** 63, 2 ** 63 - 1)
        d = Ptr(("p", lin.new_sym("data")))
        for s, r in C.run("sc_heap_add", [(st.fork(), [h, k, d])]):
            C.check(s, "leak", not C.leaks(s, [h]), "add leaks nothing")
            for t, o in cases(s, [[("eq", r)], [("ge", r - 1)]]):
                if o == 0:
                    C.check(t, "post", t.g.get("allocfail", 0) > 0, "add only fails when memory fails")
                    wf(C, t, h, i["items"], "failed add")
                else:
                    C.check(t, "post", not t.g.get("allocfail"), "a failed allocation is reported")
                    wf(C, t, h, dict(i["items"], **{d.b: k}) if False else dict(list(i["items"].items()) + [(d.b, k)]), "add")
        for s, r in C.run("sc_heap_size", [(st.fork(), [h])]):
            C.check(s, "post", s.eq(r, n), "size is the number of elements")
        for fn in ("sc_heap_peek", "sc_heap_pop"):
            for s, r in C.run(fn, [(st.fork(), [h])]):
                q = s.rp(r)
                what = fn[8:]
                if n == 0:
                    C.check(s, "post", s.isnull(q), "%s of an empty heap returns NULL" % what)
                    wf(C, s, h, {}, what)
                    continue
                if C.null(s, q):
                    C.check(s, "post", False, "%s returns the top element" % what)
                    continue
                k0, d0 = elem(C, s, q, 0)
                s, k0 = signed(C, s, k0)
                C.check(s, "order", d0.b in i["items"] and s.eq(k0, i["items"].get(d0.b, ZERO)),
                        "%s returns an element of the heap with its key" % what)
                C.check(s, "order", all(s.ge(x, k0) for x in i["items"].values()),
                        "%s returns the smallest key" % what)
                rest = dict(i["items"])
                if fn == "sc_heap_pop":
                    rest.pop(d0.b, None)
                wf(C, s, h, rest, what)
        for s, r in C.run("sc_heap_clear", [(st.fork(), [h])]):
            wf(C, s, h, {}, "clear")
        for s, r in C.run("sc_heap_term", [(st.fork(), [h])]):
            C.check(s, "leak", not C.leaks(s, [h]), "term releases the storage")
            C.check(s, "post", s.eq(C.get(s, h, S, "size")) and s.isnull(C.getp(s, h, S, "elems")), "term leaves an empty heap")
