"""sc_array and sc_queue macros, through their instantiations in witness/containers.c"""
from ..spec import *

TYPES = {"int": 4, "64": 8, "ptr": 8}


def noleak(C, s, roots):
    for x in C.leaks(s, roots):
        C.check(s, "leak", False, "no storage is lost", x.name)
    C.check(s, "leak", True, "no storage is lost")


def elem(C, s, mem, idx, sz):
    """element idx as its bytes' value (read at its full width)"""
    return C.E.read(s, mem.b, s.cs.norm(mem.off + idx.scale(sz)), sz, I(8 * sz))


def kept(C, s, msg, new, newi, old, oldi, n, sz, kind="content", name="j"):
    """for an arbitrary j < n: new[newi(j)] == old[oldi(j)]"""
    t = s.fork()
    j = C.index(t, n, name)
    if j is None:
        return
    w = sz if sz <= 8 else 1
    b = fresh("byte", 0, sz - 1) if sz > 8 else ZERO
    for u in C.split(t, new, newi(j).scale(sz) + b, w):
        for v in C.split(u, old, oldi(j).scale(sz) + b, w):
            x = C.rd(v, new, newi(j).scale(sz) + b, w)
            y = C.rd(v, old, oldi(j).scale(sz) + b, w)
            C.check(v, kind, C.same(v, x, y, 8 * w), msg, "%s vs %s" % (x, y))


# ------------------------------------------------------------------ array
def mkarray(C, nm, sz, shapes=("null", "heap")):
    S = "sc_array_" + nm
    for sh in shapes:
        st = State()
        a = C.new_struct(st, S, "a")
        cap = C.sym("cap", 0, PTRDIFF // sz)
        size = C.sym("size", 0)
        st.assume_ge(cap, size)
        if sh == "null":
            st.assume_eq(cap)
            mem = NULL
        else:
            st.assume_ge(cap, 1)
            mem = C.block(st, "elems", cap.scale(sz), "heap")
        oom = C.sym("oom", 0, 1)
        C.put(st, a, S, "oom", oom)
        C.put(st, a, S, "cap", cap)
        C.put(st, a, S, "size", size)
        C.put(st, a, S, "elems", mem)
        yield st, a, dict(cap=cap, size=size, mem=mem, oom=oom)


def ainv(C, s, a, nm, sz):
    S = "sc_array_" + nm
    cap, size = s.norm(C.get(s, a, S, "cap")), s.norm(C.get(s, a, S, "size"))
    mem = C.getp(s, a, S, "elems")
    oom = s.norm(C.get(s, a, S, "oom"))
    C.check(s, "inv", s.ge(cap, size), "size <= capacity")
    if C.null(s, mem):
        C.check(s, "inv", s.eq(cap), "no storage means zero capacity")
    else:
        r = s.mem[mem.b]
        C.check(s, "inv", r.live and s.ge(r.size, cap.scale(sz)), "storage covers the capacity",
                "storage=%s cap=%s" % (r.size, cap))
    return dict(cap=cap, size=size, mem=mem, oom=oom)


def unchanged(C, s, f, i, sz, what):
    C.check(s, "content", s.eq(f["size"], i["size"]), "%s: size unchanged" % what)
    C.check(s, "content", s.eq(f["cap"], i["cap"]) and s.sameptr(f["mem"], i["mem"]), "%s: storage unchanged" % what)
    if i["mem"].b != NULLB:
        C.check(s, "content", s.mem[i["mem"].b].live and s.mem[i["mem"].b].nwr == 0, "%s: elements unchanged" % what)


def limited_arrays(C, limit):
    """built with SC_ARRAY_MAX bytes as the maximum"""
    for nm, sz in TYPES.items():
        for st, a, i in mkarray(C, nm, sz):
            st.assume_ge(K(limit), i["cap"].scale(sz))
            k = C.block(st, "k", K(sz), "ext") if nm == "ptr" else C.sym("k", 0, 2 ** (8 * sz) - 1)
            for s, r in C.run("w_array_add_" + nm, [(st, [a, k])]):
                f = ainv(C, s, a, nm, sz)
                for t, o in cases(s, [[("eq", f["oom"])], [("ge", f["oom"] - 1)]]):
                    if o == 1:
                        unchanged(C, t, f, i, sz, "failed add")
                        C.check(t, "post", t.g.get("allocfail", 0) > 0 or t.ge(i["cap"].scale(2 * sz), limit + 1),
                                "add only fails when memory fails or the configured maximum is reached")
                    else:
                        C.check(t, "content", t.eq(f["size"], i["size"] + 1), "add grows the size by one")
                        C.check(t, "inv", t.ge(K(limit), f["cap"].scale(sz)), "the configured maximum is kept", "%s" % f["cap"])


def limited_queues(C, e, mx):
    """built with SC_QUEUE_MAX = mx as the maximum, 2^e being the largest capacity it allows"""
    for nm, sz in TYPES.items():
        S = "sc_queue_" + nm
        for x in (e - 1, e):
            cap = 1 << x
            for fn in ("w_queue_add_last_", "w_queue_add_first_"):
                for st, q, i in mkqueue(C, nm, sz, cap):
                    k = C.block(st, "k", K(sz)) if nm == "ptr" else C.sym("k", 0, 2 ** (8 * sz) - 1)
                    for s, r in C.run(fn + nm, [(st, [q, k])]):
                        noleak(C, s, [q])
                        for t, f in qinv(C, s, q, nm, sz):
                            for u, o in cases(t, [[("eq", f["oom"])], [("ge", f["oom"] - 1)]]):
                                if o == 1:
                                    C.check(u, "post", u.g.get("allocfail", 0) > 0 or x == e and u.eq(i["size"], cap - 1),
                                            "add only fails when memory fails or the configured maximum is reached")
                                    C.check(u, "content", u.eq(f["size"], i["size"]) and u.eq(f["first"], i["first"]) and
                                            u.sameptr(f["mem"], i["mem"]) and u.mem[i["mem"].b].nwr == 0 and u.eq(f["cap"], cap),
                                            "a failed add leaves the queue unchanged")
                                else:
                                    C.check(u, "content", u.eq(f["size"], i["size"] + 1), "add grows the size by one")
                                    C.check(u, "inv", u.ge(K(mx), f["cap"]), "the configured maximum is kept")


def arrays(C):
    C.widths("content", lambda n: "array" in n)
    for nm, sz in list(TYPES.items()) + [("wide", 24)]:
        wide = nm == "wide"
        fn = "w_array_add_" + nm
        for st, a, i in mkarray(C, nm, sz):
            if wide:
                k = C.block(st, "k", K(sz))
            else:
                k = C.block(st, "k", K(sz), "ext") if nm == "ptr" else C.sym("k", 0, 2 ** (8 * sz) - 1)
            for s, r in C.run(fn, [(st, [a, k])]):
                f = ainv(C, s, a, nm, sz)
                noleak(C, s, [a])
                for t, o in cases(s, [[("eq", f["oom"])], [("ge", f["oom"] - 1)]]):
                    if o == 1:
                        unchanged(C, t, f, i, sz, "failed add")
                        C.check(t, "post", t.g.get("allocfail", 0) > 0 or t.ge(i["cap"], (2 ** 64 - 1) // sz // 2),
                                "add only fails when memory fails or the array is at its maximum")
                        continue
                    C.check(t, "post", not t.g.get("allocfail"), "a failed allocation is reported")
                    C.check(t, "content", t.eq(f["size"], i["size"] + 1), "add grows the size by one")
                    if i["mem"].b != NULLB:
                        kept(C, t, "add keeps element j", f["mem"], lambda j: j, C.pre(t, i["mem"].b), lambda j: j,
                             i["size"], sz)
                    if wide:
                        kept(C, t, "add appends the element", f["mem"], lambda j: i["size"] + j, k, lambda j: j, ONE, sz)
                    else:
                        v = C.E.read(t, f["mem"].b, i["size"].scale(sz), sz, PTR if nm == "ptr" else I(8 * sz))
                        C.check(t, "content", t.sameptr(v, k) if nm == "ptr" else C.same(t, v, k, 8 * sz),
                                "add appends the element")
        for st, a, i in mkarray(C, nm, sz, ("heap",)):
            x = C.sym("i")
            st.assume_ge(i["size"], x + 1)
            for s, r in C.run("w_array_del_" + nm, [(st, [a, x])]):
                f = ainv(C, s, a, nm, sz)
                C.check(s, "content", s.eq(f["size"], i["size"] - 1), "del shrinks the size by one")
                pre = C.pre(s, i["mem"].b)
                kept(C, s, "del keeps the elements before the index", f["mem"], lambda j: j, pre, lambda j: j, x, sz)
                kept(C, s, "del moves later elements down by one", f["mem"], lambda j: j + x, pre, lambda j: j + x + 1,
                     i["size"] - 1 - x, sz)
        if wide:
            continue
        for st, a, i in mkarray(C, nm, sz, ("heap",)):
            x = C.sym("i")
            st.assume_ge(i["size"], x + 1)
            for s, r in C.run("w_array_del_unordered_" + nm, [(st, [a, x])]):
                f = ainv(C, s, a, nm, sz)
                pre = C.pre(s, i["mem"].b)
                C.check(s, "content", s.eq(f["size"], i["size"] - 1), "del shrinks the size by one")
                u = s.fork()
                if u.cs.add_ge(f["size"] - x - 1):
                    kept(C, u, "the last element takes the freed place", f["mem"], lambda j: x, pre,
                         lambda j: i["size"] - 1, ONE, sz)
                kept(C, s, "del_unordered keeps other elements", f["mem"], lambda j: j, pre, lambda j: j, x, sz)
                kept(C, s, "del_unordered keeps other elements", f["mem"], lambda j: j + x + 1, pre, lambda j: j + x + 1,
                     f["size"] - x - 1, sz)
        for st, a, i in mkarray(C, nm, sz, ("heap",)):
            st.assume_ge(i["size"], 1)
            for s, r in C.run("w_array_last_" + nm, [(st.fork(), [a])]):
                same_elem(C, s, r, i["mem"], i["size"] - 1, sz, "last returns the last element")
            x = C.sym("i")
            st.assume_ge(i["size"], x + 1)
            for s, r in C.run("w_array_at_" + nm, [(st.fork(), [a, x])]):
                same_elem(C, s, r, i["mem"], x, sz, "at returns the element at its index")
            for s, r in C.run("w_array_del_last_" + nm, [(st.fork(), [a])]):
                f = ainv(C, s, a, nm, sz)
                C.check(s, "content", s.eq(f["size"], i["size"] - 1), "del_last shrinks the size by one")
                C.check(s, "content", s.mem[i["mem"].b].nwr == 0, "del_last keeps other elements")
        for st, a, i in mkarray(C, nm, sz):
            for s, r in C.run("w_array_size_" + nm, [(st.fork(), [a])]):
                C.check(s, "content", s.eq(r, i["size"]), "size is the element count")
            for s, r in C.run("w_array_oom_" + nm, [(st.fork(), [a])]):
                C.check(s, "post", s.eq(r, i["oom"]), "oom reports the last add")
            for s, r in C.run("w_array_clear_" + nm, [(st.fork(), [a])]):
                f = ainv(C, s, a, nm, sz)
                C.check(s, "content", s.eq(f["size"]) and s.eq(f["oom"]) and s.eq(f["cap"], i["cap"]),
                        "clear empties the array and keeps its storage")
                noleak(C, s, [a])
            for s, r in C.run("w_array_term_" + nm, [(st.fork(), [a])]):
                f = ainv(C, s, a, nm, sz)
                C.check(s, "content", s.eq(f["size"]) and s.isnull(f["mem"]), "term leaves an empty array")
                noleak(C, s, [a])
        st = State()
        a = C.new_struct(st, "sc_array_" + nm, "a")
        for s, r in C.run("w_array_init_" + nm, [(st, [a])]):
            f = ainv(C, s, a, nm, sz)
            C.check(s, "content", s.eq(f["size"]) and s.isnull(f["mem"]) and s.eq(f["oom"]), "init makes an empty array")
        # iteration
        for st, a, i in mkarray(C, nm, sz, ("heap",)):
            for n in range(0, 4):
                u = st.fork()
                if not u.cs.add_eq(i["size"] - n):
                    continue
                u.g["vsz"] = sz
                for s, r in C.finish("w_array_foreach_" + nm, [(u.fork(), [a])], "content", "iteration ends after the last element"):
                    order(C, s, s.g.get("visits", ()), [(i["mem"], K(k)) for k in range(n)], sz)
                for s, r in C.finish("w_array_leave_" + nm, [(u, [a])], "content", "iteration ends after the last element"):
                    w = C.leaving(s, n)
                    if C.check(s, "content", w is not None, "break and continue work in an iteration", "%s" % (s.g.get("choices"),)):
                        order(C, s, s.g.get("visits", ()), [(i["mem"], K(k)) for k in w], sz)


def same_elem(C, s, r, mem, idx, sz, msg):
    if isinstance(r, Lin):
        v = C.E.read(s, mem.b, s.cs.norm(idx.scale(sz)), sz, I(8 * sz))
        C.check(s, "content", C.same(s, r, v, 8 * sz), msg, "%s vs %s" % (r, v))
    else:
        v = C.E.read(s, mem.b, s.cs.norm(idx.scale(sz)), sz, PTR)
        C.check(s, "content", s.norm(v) == s.norm(r), msg, "%s vs %s" % (r, v))


def order(C, s, got, want, sz):
    C.check(s, "content", len(got) == len(want), "iteration visits every element once")
    for v, (mem, idx) in zip(got, want):
        w = C.E.read(s, mem.b, s.cs.norm(idx.scale(sz)), sz, I(8 * sz))
        C.check(s, "content", s.norm(v) == s.norm(w), "iteration visits the elements in order", "%s vs %s" % (v, w))


def visit(E, st, a, inst):
    p = st.rp(a[1])
    v = E.read(st, p.b, p.off, st.g["vsz"], I(8 * st.g["vsz"]))
    st.g["visits"] = st.g.get("visits", ()) + (v,)
    return [(st, None)]


MODELS = {"w_visit": visit, "w_choose": choose}


# ------------------------------------------------------------------ queue
def mkqueue(C, nm, sz, cap, failed=False):
    """a queue of the given capacity (a power of two) with any content; both layouts"""
    S = "sc_queue_" + nm
    for wrapped in (False, True):
        st = State()
        q = C.new_struct(st, S, "q")
        first = C.sym("first", 0, cap - 1)
        last = C.sym("last", 0, cap - 1)
        if wrapped:
            st.assume_ge(first, last + 1)
            size = last - first + cap
        else:
            st.assume_ge(last, first)
            size = last - first
        mem = C.block(st, "elems", K(cap * sz), "heap")
        oom = C.sym("oom", 0, 1)
        C.put(st, q, S, "oom", oom)
        C.put(st, q, S, "cap", K(cap))
        C.put(st, q, S, "first", first)
        C.put(st, q, S, "last", last)
        C.put(st, q, S, "elems", mem)
        yield st, q, dict(cap=K(cap), first=first, last=last, size=size, mem=mem, oom=oom)


def qinv(C, s, q, nm, sz):
    """-> [(state, fields)] with the size resolved"""
    S = "sc_queue_" + nm
    cap, first, last = (s.norm(C.get(s, q, S, x)) for x in ("cap", "first", "last"))
    mem = C.getp(s, q, S, "elems")
    oom = s.norm(C.get(s, q, S, "oom"))
    c = s.const(cap)
    C.check(s, "inv", c is not None and c > 0 and c & (c - 1) == 0, "capacity is a power of two", "%s" % cap)
    C.check(s, "inv", s.ge(first) and s.ge(cap, first + 1), "first index inside the capacity", "%s" % first)
    C.check(s, "inv", s.ge(last) and s.ge(cap, last + 1), "last index inside the capacity", "%s" % last)
    if C.null(s, mem):
        C.check(s, "inv", s.ge(oom, 1), "missing storage is flagged")
    else:
        r = s.mem[mem.b]
        C.check(s, "inv", r.live and s.ge(r.size, cap.scale(sz)), "storage covers the capacity",
                "storage=%s cap=%s" % (r.size, cap))
    out = []
    for t, k in cases(s, [[("ge", last - first)], [("ge", first - last - 1)]]):
        f = dict(cap=cap, first=first, last=last, mem=mem, oom=oom, size=t.norm(last - first + (cap if k else 0)))
        out.append((t, f))
    return out


def slot(f, j):
    """alternatives for the index of element j: [(constraint, index)]"""
    i = f["first"] + j
    return [([("ge", f["cap"] - i - 1)], i), ([("ge", i - f["cap"])], i - f["cap"])]


def qkept(C, s, msg, f, newj, i, oldj, n, sz):
    t = s.fork()
    j = C.index(t, n)
    if j is None:
        return
    for c1, x in slot(f, newj(j)):
        for t1, _ in cases(t, [c1]):
            for c2, y in slot(i, oldj(j)):
                for t2, _ in cases(t1, [c2]):
                    pre = C.pre(t2, i["mem"].b)
                    for u in C.split(t2, f["mem"], x.scale(sz), sz):
                        v = C.rd(u, f["mem"], x.scale(sz), sz)
                        w = C.rd(u, pre, y.scale(sz), sz)
                        C.check(u, "content", C.same(u, v, w, 8 * sz), msg, "%s vs %s" % (v, w))


def qelem(C, s, msg, f, j, val, nm, sz):
    for c, x in slot(f, j):
        for t, _ in cases(s, [c]):
            v = C.E.read(t, f["mem"].b, t.cs.norm(x.scale(sz)), sz, PTR if nm == "ptr" else I(8 * sz))
            ok = t.norm(v) == t.norm(val) if not isinstance(v, Lin) or not isinstance(val, Lin) else C.same(t, v, val, 8 * sz)
            C.check(t, "content", ok, msg, "%s vs %s" % (v, val))


def queues(C, tier="quick"):
    C.widths("content", lambda n: "queue" in n)
    exps = (3, 4, 10, 31, 32, 33, 58) if tier == "quick" else range(3, 59)
    for nm, sz in TYPES.items():
        S = "sc_queue_" + nm
        st = State()
        q = C.new_struct(st, S, "q")
        for s, r in C.run("w_queue_init_" + nm, [(st, [q])]):
            for t, f in qinv(C, s, q, nm, sz):
                C.check(t, "content", t.eq(f["size"]), "a new queue is empty")
                C.check(t, "post", t.eq(f["oom"], 1 if t.g.get("allocfail") else 0), "init reports failure")
                noleak(C, t, [q])
                if t.g.get("allocfail"):
                    # a queue without storage must refuse elements, not crash
                    k = C.sym("k", 0, 2 ** (8 * sz) - 1) if nm != "ptr" else NULL
                    for fn in ("w_queue_add_last_", "w_queue_add_first_"):
                        for u, _ in C.run(fn + nm, [(t.fork(), [q, k])]):
                            C.check(u, "post", u.ge(C.get(u, q, S, "oom"), 1), "a queue without storage refuses elements")
        for e in exps:
            cap = 1 << e
            if cap * sz > PTRDIFF:
                continue
            for fn, end in (("w_queue_add_last_", 1), ("w_queue_add_first_", 0)):
                for st, q, i in mkqueue(C, nm, sz, cap):
                    k = C.block(st, "k", K(sz)) if nm == "ptr" else C.sym("k", 0, 2 ** (8 * sz) - 1)
                    for s, r in C.run(fn + nm, [(st, [q, k])]):
                        noleak(C, s, [q])
                        for t, f in qinv(C, s, q, nm, sz):
                            for u, o in cases(t, [[("eq", f["oom"])], [("ge", f["oom"] - 1)]]):
                                if o == 1:
                                    C.check(u, "post", u.g.get("allocfail", 0) > 0 or cap * 2 * sz > PTRDIFF,
                                            "add only fails when memory fails")
                                    C.check(u, "content", u.eq(f["size"], i["size"]) and u.eq(f["first"], i["first"]) and
                                            u.sameptr(f["mem"], i["mem"]) and u.mem[i["mem"].b].nwr == 0 and u.eq(f["cap"], cap),
                                            "a failed add leaves the queue unchanged")
                                    continue
                                C.check(u, "post", not u.g.get("allocfail"), "a failed allocation is reported")
                                C.check(u, "content", u.eq(f["size"], i["size"] + 1), "add grows the size by one",
                                        "%s vs %s" % (f["size"], i["size"]))
                                d = 0 if end else 1
                                qkept(C, u, "add keeps the other elements in order", f, lambda j: j + d, i, lambda j: j,
                                      i["size"], sz)
                                qelem(C, u, "add puts the element at its end", f, i["size"] if end else ZERO, k, nm, sz)
            for fn, end in (("w_queue_del_last_", 1), ("w_queue_del_first_", 0)):
                for st, q, i in mkqueue(C, nm, sz, cap):
                    if not st.cs.add_ge(i["size"] - 1) or st.cs.bot:
                        continue
                    for s, r in C.run(fn + nm, [(st, [q])]):
                        for t, f in qinv(C, s, q, nm, sz):
                            C.check(t, "content", t.eq(f["size"], i["size"] - 1), "del shrinks the size by one")
                            qelem(C, t, "del returns the end element", i, i["size"] - 1 if end else ZERO, r, nm, sz)
                            d = 0 if end else 1
                            qkept(C, t, "del keeps the other elements in order", f, lambda j: j, i, lambda j: j + d,
                                  i["size"] - 1, sz)
            for st, q, i in mkqueue(C, nm, sz, cap):
                for s, r in C.run("w_queue_size_" + nm, [(st.fork(), [q])]):
                    C.check(s, "content", s.eq(r, i["size"]), "size is the element count")
                for s, r in C.run("w_queue_empty_" + nm, [(st.fork(), [q])]):
                    for t, k in cases(s, [[("eq", i["size"])], [("ge", i["size"] - 1)]]):
                        C.check(t, "content", t.eq(r, 1 - k), "empty tells whether there are elements")
                for s, r in C.run("w_queue_clear_" + nm, [(st.fork(), [q])]):
                    for t, f in qinv(C, s, q, nm, sz):
                        C.check(t, "content", t.eq(f["size"]) and t.eq(f["oom"]), "clear empties the queue")
                        noleak(C, t, [q])
                for s, r in C.run("w_queue_oom_" + nm, [(st.fork(), [q])]):
                    C.check(s, "post", s.eq(r, i["oom"]), "oom reports the last add")
                for s, r in C.run("w_queue_term_" + nm, [(st.fork(), [q])]):
                    C.check(s, "content", s.isnull(C.getp(s, q, S, "elems")), "term drops the storage")
                    C.check(s, "content", s.eq(C.get(s, q, S, "oom")), "term clears the out of memory flag")
                    for t, n in C.aside("w_queue_size_" + nm, [(s.fork(), [q])]):
                        C.check(t, "content", t.eq(n), "term leaves an empty queue")
                    for t, n in C.aside("w_queue_empty_" + nm, [(s.fork(), [q])]):
                        C.check(t, "content", t.eq(n, 1), "term leaves an empty queue")
                    noleak(C, s, [q])
                t = st.fork()
                if t.cs.add_ge(i["size"] - 1) and not t.cs.bot:
                    for s, r in C.run("w_queue_peek_first_" + nm, [(t.fork(), [q])]):
                        qelem(C, s, "peek returns the end element", i, ZERO, r, nm, sz)
                    for s, r in C.run("w_queue_peek_last_" + nm, [(t.fork(), [q])]):
                        qelem(C, s, "peek returns the end element", i, i["size"] - 1, r, nm, sz)
                    j = C.sym("i")
                    t.assume_ge(i["size"], j + 1)
                    for s, r in C.run("w_queue_at_" + nm, [(t.fork(), [q, j])]):
                        qelem(C, s, "at returns the element at its index", i, j, r, nm, sz)
                if e <= 4:
                    for n in range(0, 4):
                        u = st.fork()
                        if not u.cs.add_eq(i["size"] - n) or u.cs.bot:
                            continue
                        u.g["vsz"] = sz
                        for fn in ("w_queue_foreach_", "w_queue_leave_"):
                            for s, r in C.finish(fn + nm, [(u.fork(), [q])], "content", "iteration ends after the last element"):
                                got = s.g.get("visits", ())
                                w = list(range(n)) if "foreach" in fn else C.leaving(s, n)
                                if not C.check(s, "content", w is not None, "break and continue work in an iteration",
                                               "%s" % (s.g.get("choices"),)):
                                    continue
                                C.check(s, "content", len(got) == len(w), "iteration visits every element once")
                                for k, v in zip(w, got):
                                    vv = C.E.i2p(s, v) if nm == "ptr" and isinstance(v, Lin) else v
                                    qelem(C, s, "iteration visits the elements in order", i, K(k), vv, nm, sz)
