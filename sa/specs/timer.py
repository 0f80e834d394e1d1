"""Timing wheel: call sequences with symbolic timestamps and delays, judged by
the callbacks they cause."""
from ..spec import *
from ..sysm import log, events

S = "sc_timer"
TICK = 16
CB = Ptr(("p", lin.new_sym("callback")))
ARG = Ptr(("p", lin.new_sym("arg")))


def indirect(E, st, args, inst, p):
    E.ob(st, "timer", st.rp(p) == st.rp(CB), "only the caller's callback is called", inst)
    log(st, "fire", st.norm(args[0]), st.cs.norm(E.as_int(st, args[1])), st.cs.norm(E.as_int(st, args[2])), st.rp(args[3]))
    todo = st.g.get("reent", ())
    if not todo:
        return [(st, None)]
    act, rest = todo[0], todo[1:]
    st.g["reent"] = rest
    if act is None:
        return [(st, None)]
    return act(E, st, inst)


MODELS = {"*indirect*": indirect}


class Seq:
    """states reached by a sequence of calls"""

    def __init__(self, C, wide=False):
        self.C = C
        st = State()
        self.t = C.new_struct(st, S, "t")
        self.ts = fresh("start", 0, 2 ** 62)
        self.wide = wide
        self.full = False
        self.n = 0
        self.states = [s for s, _ in C.run("sc_timer_init", [(st, [self.t, self.ts])])]
        for s in self.states:
            s.g["now"] = self.ts
            s.g["timers"] = ()

    def head(self, h):
        """advance an empty wheel to position h"""
        if h:
            e = fresh("e0", 16 * h, 16 * h + 15)
            self.timeout(lambda s: e)
        return self

    def add(self, tick=None, lo=None, hi=None, keep_oom=False):
        """add a timer; tick: delay in ticks (int), else lo..hi"""
        C = self.C
        self.n += 1
        n = self.n
        d = fresh("delay%d" % n, 0 if tick is None else TICK * tick, U64 if tick is None else TICK * tick + TICK - 1)
        ty = fresh("type%d" % n, 0, U64)
        da = Ptr(("p", lin.new_sym("data%d" % n)))
        out = []
        for s in self.states:
            if lo is not None:
                s.cs.add_ge(d - lo)
            if hi is not None:
                s.cs.add_ge(-d + hi)
            out += [x for x in self._add(s, n, d, ty, da, None) if keep_oom or not x.g.get("allocfail")]
        self.states = out
        return self

    def _add(self, s, n, d, ty, da, inst):
        C = self.C
        E = C.E
        out = []
        s.g["allocfail"] = 0
        f0 = len(events(s, "fire"))
        full = self.full
        if inst is None:
            outs = C.run("sc_timer_add", [(s, [self.t, d, ty, da])])
        else:
            outs = E.call_func(E.mod.funcs["sc_timer_add"], s, [self.t, d, ty, da], inst)
        for s2, r in outs:
            for t, v in E.norm_u(s2, E.as_int(s2, r), 64):
                for u, o in cases(t, [[("eq", v - U64)], [("ge", -v + U64 - 1)]]):
                    if o == 0:
                        C.check(u, "timer", u.g.get("allocfail", 0) > 0 or full, "adding fails only when memory fails")
                        out.append(u)
                        continue
                    C.check(u, "timer", not u.g.get("allocfail"), "a failed allocation is reported")
                    # where it went is known from its id: low half
                    for x in u.g["timers"]:
                        if x[5] == "pending" and not any(u.rp(f[4]) == u.rp(x[3]) for f in events(u, "fire")):
                            C.check(u, "timer", None if not u.ne(v, x[6]) and not u.eq(v, x[6]) else not u.eq(v, x[6]),
                                    "a timer gets an id no pending timer has")
                    for w in split16(u, v):
                        w.g["timers"] = w.g["timers"] + ((n, d, ty, da, w.g["now"], "pending", w.cs.norm(v)),)
                        out.append(w)
        for s2, r in outs:
            C.check(s2, "timer", len(events(s2, "fire")) == f0, "adding calls nothing back")
        return out

    def only(self, pred):
        self.states = [s for s in self.states if pred(s)]
        return self

    def cancel(self, n):
        C = self.C
        out = []
        for s in self.states:
            tm = [x for x in s.g["timers"] if x[0] == n]
            if not tm:
                out.append(s)
                continue
            out += self._cancel(s, tm[0], None)
        self.states = out
        return self

    def _cancel(self, s, tm, inst):
        C = self.C
        E = C.E
        idp = C.block(s, "id", K(8))
        E.write(s, idp.b, ZERO, K(8), tm[6])
        if inst is None:
            outs = C.run("sc_timer_cancel", [(s, [self.t, idp])])
        else:
            outs = E.call_func(E.mod.funcs["sc_timer_cancel"], s, [self.t, idp], inst)
        res = []
        for s2, r in outs:
            C.check(s2, "timer", all(x.eq(v, U64) for x, v in E.norm_u(s2.fork(), E.read(s2, idp.b, ZERO, 8, I(64)), 64)), "cancelling invalidates the id")
            s2.g["timers"] = tuple(x if x[0] != tm[0] else x[:5] + ("cancelled" if x[5] == "pending" else x[5],) + x[6:]
                                   for x in s2.g["timers"])
            res.append(s2)
        return res

    def timeout(self, elapsed, must=True):
        """advance the clock; elapsed: function(state) -> Lin"""
        C = self.C
        E = C.E
        out = []
        for s in self.states:
            e = elapsed(s)
            s.g["e"] = e
            now = s.cs.norm(s.g["now"] + e)
            s.g["due_at"] = now
            pre = len(events(s, "fire"))
            s.g["oldnow"] = s.g["now"]
            # timers added by a callback are relative to the new time, but only once the wheel moved
            s.g["now"] = now
            for s2, r in C.run("sc_timer_timeout", [(s, [self.t, now, ARG, CB])]):
                for t, o in cases(s2, [[("ge", e - TICK)], [("ge", -e + TICK - 1)]]):
                    if o == 1:
                        # the wheel has not moved: time goes on from the old stamp
                        C.check(t, "timer", len(events(t, "fire")) == pre, "nothing fires within one tick of the last call")
                        t.g["now"] = t.g["oldnow"]
                    for u, v in E.norm_u(t, E.as_int(t, r), 64):
                        C.check(u, "timer", u.ge(-v + TICK), "the next timeout is at most one tick away", "%s" % u.cs.norm(v))
                        if o == 1:
                            C.check(u, "timer", u.ge(v, 1) and u.ge(v + e, TICK), "waiting for the next timeout reaches the next tick")
                        out += self.judge(u, pre, now, e, must)
        self.states = out
        return self

    def judge(self, s, pre, now, e, must):
        C = self.C
        fires = events(s, "fire")[pre:]
        tms = list(s.g["timers"])
        ok = True
        for f in fires:
            C.check(s, "timer", s.rp(f[1]) == s.rp(ARG), "the callback gets the caller's argument")
            hit = [i for i, x in enumerate(tms) if s.rp(x[3]) == s.rp(f[4])]
            if not hit:
                C.check(s, "timer", False, "only timers that were added fire", "%s %s" % (f, tms))
                continue
            i = hit[0]
            x = tms[i]
            C.check(s, "timer", x[5] != "cancelled", "a cancelled timer does not fire")
            C.check(s, "timer", x[5] != "fired", "a timer fires at most once")
            C.check(s, "timer", s.eq(f[3], x[2]), "the callback gets the timer's type")
            C.check(s, "timer", s.ge(now, x[4] + x[1]), "a timer never fires before its time",
                    "delay %s added at %s, now %s" % (s.cs.norm(x[1]), s.cs.norm(x[4]), s.cs.norm(now)))
            C.check(s, "timer", s.eq(f[2], x[4] + x[1]), "the callback gets the time the timer was due")
            tms[i] = x[:5] + ("fired",) + x[6:]
        for x in tms:
            if x[5] != "pending" or not must or x[4] is now or s.eq(x[4], now) is True:
                continue
            # due at least one full tick ago, measured from the time it was added
            q = C.E.fdiv(s, x[1], TICK)
            t = s.fork()
            if t.cs.add_ge(now - x[4] - q.scale(TICK) - TICK) and not t.cs.bot and s.g["oldnow"] is x[4]:
                C.check(t, "timer", False, "a timer fires at the first call after the tick it is due in",
                        "delay %s elapsed %s" % (t.cs.norm(x[1]), t.cs.norm(now - x[4])))
            elif s.g["oldnow"] is x[4]:
                C.check(s, "timer", True, "a timer fires at the first call after the tick it is due in")
        s.g["timers"] = tuple(tms)
        return [s]

    def late(self, fired=True):
        """long after every delay: everything pending fires exactly once"""
        C = self.C
        E = C.E
        out = []
        for s in self.states:
            e = fresh("late", 272, 2 ** 62)
            for x in s.g["timers"]:
                if x[5] == "pending":
                    s.cs.add_ge(s.g["now"] + e - x[4] - x[1])
            if s.cs.bot or not s.cs.add_ge(e - 272):
                continue
            s.g["late"] = e
            out.append(s)
        self.states = out
        self.timeout(lambda s: s.g["late"], must=False)
        for s in self.states:
            for x in s.g["timers"]:
                if s.eq(x[4], s.g["now"]) is True and x[5] == "pending" and x[4] is s.g["now"]:
                    continue        # added by a callback of this very call
                C.check(s, "timer", x[5] != "pending", "every timer fires once its time has long passed")
        return self

    def close(self):
        C = self.C
        for s in self.states:
            for t, r in C.run("sc_timer_term", [(s.fork(), [self.t])]):
                C.check(t, "leak", not C.leaks(t, [self.t]), "term releases the storage")
                n = len(events(t, "fire"))
                e = fresh("e9", 0, 2 ** 62)
                for u, r in C.run("sc_timer_timeout", [(t, [self.t, t.cs.norm(t.g["now"] + e), ARG, CB])]):
                    C.check(u, "timer", len(events(u, "fire")) == n, "nothing fires after term")
        return self


def split16(s, v):
    """split on the low half of the id"""
    lo = None
    out = []
    q = s.cs.norm(v)
    c = s.const(q)
    if c is not None:
        return [s]
    base = None
    for k in range(0, 64):
        t = s.fork()
        if not (t.cs.add_ge(q - (k << 32)) and t.cs.add_ge(-q + (k << 32) + (1 << 32) - 1)) or t.cs.bot:
            if base is not None:
                break
            continue
        base = k
        for p in range(16):
            u = t.fork()
            if u.cs.add_eq(q - (k << 32) - p) and not u.cs.bot:
                out.append(u)
        break
    return out or [s]


def el(name="e", lo=0, hi=2 ** 62):
    e = fresh(name, lo, hi)
    return lambda s: e


def req(C):
    C.require("sc_timer_init", "sc_timer_term", "sc_timer_clear", "sc_timer_add", "sc_timer_cancel", "sc_timer_timeout")


def single(C, h, wide):
    """one timer with any delay, any elapsed time, then a late call"""
    req(C)
    q = Seq(C).head(h)
    q.add(hi=None if wide else 2 ** 62)
    q.timeout(el())
    q.late().close()


def steps(C, h, ticks):
    """one timer, two arbitrary steps, then a late call"""
    req(C)
    for k in ticks:
        q = Seq(C).head(h).add(tick=k)
        q.timeout(el("e1", 0, 79)).timeout(el("e2", 0, 79), must=True)
        q.late()


def pairs(C, h, ticks):
    """two timers in the same, neighbouring or wrapped slots; then each cancelled"""
    req(C)
    for a, b in ticks:
        q = Seq(C).head(h).add(tick=a).add(tick=b)
        q.timeout(el()).late()
        for n in (1, 2):
            q = Seq(C).head(h).add(tick=a).add(tick=b)
            q.cancel(n).timeout(el()).late()


def grow(C, h, tick):
    """a slot that overflows: expansion, failing allocation, cancel across it"""
    req(C)
    q = Seq(C).head(h)
    for i in range(4):
        q.add(tick=tick)
    base = q.states
    import copy
    for oom in (True, False):
        q.states = [s.fork() for s in base]
        q.add(tick=tick, keep_oom=True)
        q.only(lambda s: bool(s.g.get("allocfail")) == oom)
        mid = q.states
        q.states = [s.fork() for s in mid]
        q.add(tick=tick + 1)
        q.timeout(el("e", 0, 16 * tick + 40)).late().close()
        for n in (1, 4, 5):
            q.states = [s.fork() for s in mid]
            q.cancel(n).late()


def limited(C, h, tick):
    """built with SC_TIMER_MAX below twice the first wheel: a full slot must refuse, and keep what it has"""
    q = Seq(C).head(h)
    for i in range(4):
        q.add(tick=tick)
    q.only(lambda s: len(s.g["timers"]) == 4)
    n = len(q.states)
    q.full = True
    q.add(tick=tick, keep_oom=True)
    C.check(State(), "timer", n == 0 and bool(C.lost) or n > 0 and all(len(s.g["timers"]) == 4 for s in q.states), "the configured maximum is kept")
    for s in q.states:
        C.check(s, "timer", not s.g.get("allocfail"), "nothing is allocated beyond the configured maximum")
    q.full = False
    q.timeout(el("e", 0, 16 * tick + 40)).late().close()


def endless(C, h):
    """a delay that reaches the end of the clock is kept like any other: its place is taken"""
    q = Seq(C).head(h)
    s = q.states[0]
    end = s.cs.norm(K(U64) - s.g["now"])
    for k in (-1, 0):
        q2 = Seq.__new__(Seq)
        q2.__dict__.update(q.__dict__)
        q2.states = [x.fork() for x in q.states]
        for i in range(2):
            q2.add(lo=end + k, hi=end + k)
        q2.close()


def clear(C, h, tick):
    req(C)
    q = Seq(C).head(h).add(tick=tick).add(tick=tick + 3)
    for s in q.states:
        for t, r in C.run("sc_timer_clear", [(s, [q.t])]):
            t.g["timers"] = tuple(x[:5] + ("cancelled",) + x[6:] for x in t.g["timers"])
            q2 = q
    q.states = [t for s in q.states for t, r in C.run("sc_timer_clear", [(s, [q.t])])]
    for t in q.states:
        t.g["timers"] = tuple(x[:5] + ("cancelled",) + x[6:] for x in t.g["timers"])
    q.add(tick=tick).timeout(el()).late().close()
    # timers in the last slots of the wheel, and further down a slot
    q = Seq(C).head(h)
    far = (15 - h) % 16
    q.add(tick=far).add(tick=far).add(tick=(far + 13) % 16)
    for s in q.states:
        s.g["timers"] = tuple(x[:5] + ("cancelled",) + x[6:] for x in s.g["timers"])
    q.states = [t for s in q.states for t, r in C.run("sc_timer_clear", [(s, [q.t])])]
    q.late().close()
    # an empty wheel
    q = Seq(C).head(h)
    q.states = [t for s in q.states for t, r in C.run("sc_timer_clear", [(s, [q.t])])]
    q.add(tick=2).late().close()


def reenter(C, h, tick, full, what, dt, ek):
    """the callback of the first timer that fires adds or cancels a timer"""
    req(C)
    q = Seq(C).head(h)
    if full == "other":
        # another slot is full, and the callback adds to it: the list grows while a slot is being fired
        for i in range(4):
            q.add(tick=tick + 5)
        q.add(tick=tick).add(tick=tick)
    else:
        for i in range(4 if full else 2):
            q.add(tick=tick)

    def act_add(E, st, inst):
        d = fresh("delayR", TICK * dt, TICK * dt + TICK - 1)
        ty = fresh("typeR", 0, U64)
        da = Ptr(("p", lin.new_sym("dataR")))
        outs = q._add(st, 99, d, ty, da, inst)
        return [(s, None) for s in outs]

    def act_cancel(E, st, inst):
        last = [x for x in st.g["timers"] if x[0] == 2][0]
        fired = [f for f in events(st, "fire") if st.rp(f[4]) == st.rp(last[3])]
        if fired:
            return [(st, None)]
        return [(s, None) for s in q._cancel(st, last, inst)]
    for s in q.states:
        s.g["reent"] = ((act_add if what == "add" else act_cancel),)
    q.timeout(el("e", 16 * ek, 16 * ek + 15)).late().close()
