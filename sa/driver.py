"""Runs the analysis behind one property and turns obligations into a verdict."""
import importlib
import json
import os
import sys
import time
import traceback
from . import front, lin, eng
from .eng import AnalysisError, Budget
from .spec import Ctx

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")


class Anchor(Exception):
    pass


def load_known():
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return json.load(f)["findings"]


class Result:
    """what one run established, mergeable across worker processes"""

    def __init__(self, pid):
        self.pid = pid
        self.ob = {}            # key -> obligation
        self.units = set()
        self.functions = set()
        self.entry = set()
        self.insts = 0
        self.callsites = 0
        self.states = 0
        self.incomplete = set()
        self.notes = []
        self.unmodelled = set()
        self.lost = []

    def _add(self, key, ok, bad, unk, **kw):
        o = self.ob.get(key)
        if o is None:
            o = self.ob[key] = dict(kw, ok=0, bad=0, unk=0)
        elif bad and not o["bad"] or unk and not o["bad"] and not o["unk"]:
            o.update(kw)
        o["ok"] += ok
        o["bad"] += bad
        o["unk"] += unk

    def absorb(self, C, kinds, unit):
        E = C.E
        self.units.add(unit)
        self.functions |= E.visited
        self.entry |= set(C.functions)
        self.insts += E.ninst
        self.callsites += E.callsites
        self.states += C.nstates
        self.incomplete |= set("%s/%s" % (a, b) for a, b, c in E.incomplete)
        self.unmodelled |= E.unmodelled
        self.lost += C.lost
        for k, o in E.obs.items():
            if kinds is not None and o.kind not in kinds and o.kind != "progress":
                continue
            self._add((unit,) + k, o.ok, o.bad, o.unk, rule=o.kind, entry=k[1], function=o.func, where=o.loc, what=o.msg,
                      detail=o.detail, unit=unit, path=E.fmt_trace(o.trace or []) if o.bad else [])

    def merge(self, r):
        for k, o in r.ob.items():
            kw = dict(o)
            self._add(k, kw.pop("ok"), kw.pop("bad"), kw.pop("unk"), **kw)
        self.units |= r.units
        self.functions |= r.functions
        self.entry |= r.entry
        self.insts += r.insts
        self.callsites += r.callsites
        self.states += r.states
        self.incomplete |= r.incomplete
        self.notes += r.notes
        self.unmodelled |= r.unmodelled
        self.lost += r.lost

    # for rules that do not go through the engine
    def fact(self, rule, ok, entry, where, what, detail=None, path=()):
        self._add(("", rule, entry, entry, where, what), 1 if ok is True else 0, 1 if ok is False else 0,
                  1 if ok is None else 0, rule=rule, entry=entry, function=entry, where=where, what=what, detail=detail,
                  unit="", path=list(path))

    def finish(self):
        self.obligations = len(self.ob)
        self.viol = [o for o in self.ob.values() if o["bad"]]
        self.unknown = [o for o in self.ob.values() if o["unk"] and not o["bad"]]
        self.discharged = self.obligations - len(self.viol) - len(self.unknown)
        self.evals = sum(o["ok"] + o["bad"] + o["unk"] for o in self.ob.values())
        self.rules = {}
        good = []
        for o in self.ob.values():
            r = self.rules.setdefault(o["rule"], [0, 0])
            r[0] += 1
            if not o["bad"] and not o["unk"]:
                r[1] += 1
                good.append(o)
        step = max(1, len(good) // 12)
        self.samples = ["%s: %s in %s at %s (%d abstract states)" % (o["rule"], o["what"], o["entry"], o["where"], o["ok"])
                        for o in good[::step][:12]]


def _job(a):
    pid, fn, args = a
    r = Result(pid)
    try:
        fn(r, *args)
        return r, None
    except (AnalysisError, front.FrontError) as e:
        return None, ("broken", "%s: %s" % (type(e).__name__, e))
    except Exception:
        return None, ("error", traceback.format_exc())


def parallel(R, jobs):
    """jobs: [(function(R, *args), args)] run in worker processes and merged"""
    import multiprocessing
    ctx = multiprocessing.get_context("fork")
    n = max(1, min(len(jobs), os.cpu_count() or 1, 8))
    if n == 1:
        for fn, args in jobs:
            fn(R, *args)
        return
    with ctx.Pool(n, maxtasksperchild=4) as pool:
        for r, err in pool.imap_unordered(_job, [(R.pid, fn, args) for fn, args in jobs], 1):
            if err is not None:
                if err[0] == "broken":
                    raise AnalysisError(err[1])
                # one entry function lost does not silence the others
                sys.stderr.write(err[1])
                R.lost.append((fn.__name__ + " " + " ".join(str(x) for x in args[:3]), "internal error: " + err[1].strip().splitlines()[-1]))
                continue
            R.merge(r)


def run_property(prop, tier):
    """prop: dict from registry"""
    R = Result(prop["id"])
    prop["run"](R, tier)
    R.finish()
    return R


def selftest():
    """setup: the tools are there and a witness lowers to IR"""
    m = front.load(os.path.join(VERIF, "witness", "list.c"))
    ok = "sc_list_del" in m.funcs
    print("selftest", "ok" if ok else "failed")
    return 0 if ok else 1


def main(argv):
    from . import registry
    if argv and argv[0] == "--selftest":
        return selftest()
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = registry.PROPS.get(pid)
    if prop is None:
        print("unknown property", pid)
        return 2
    t0 = time.time()
    eng.SOFT[0] = t0 + (360 if tier == "quick" else 2400)
    eng.HARD[0] = t0 + (560 if tier == "quick" else 3000)
    try:
        R = run_property(prop, tier)
    except (AnalysisError, front.FrontError, Anchor) as e:
        print("ANALYSIS-BROKEN property=%s %s: %s" % (pid, type(e).__name__, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 2
    need = prop.get("min_obligations", 1)
    if not R.viol and R.obligations < (need if not R.lost else need // 4 + 1):
        print("ANALYSIS-BROKEN property=%s only %d obligations (expected at least %d)" %
              (pid, R.obligations, need))
        return 2
    known = [k for k in load_known() if k["property"] == pid and k["status"] == "known"]
    real = []
    hits = {}
    for v in R.viol:
        for i, k in enumerate(known):
            if k["entry"] == v["entry"] and k["rule"] == v["rule"] and k["function"] == v["function"] \
                    and k["what"] == v["what"]:
                hits[i] = v
                break
        else:
            real.append(v)
    for i, k in enumerate(known):
        if i in hits:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["summary"]))
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": prop.get("level", "other"),
        "coverage": {
            "explanation": prop["explain"],
            "units": sorted(R.units),
            "entry_functions": sorted(R.entry),
            "functions_analysed": sorted(R.functions),
            "obligations": R.obligations,
            "discharged": R.discharged,
            "undecided": len(R.unknown),
            "obligation_instances": R.evals,
            "rules": {k: {"obligations": a, "discharged": b} for k, (a, b) in sorted(R.rules.items())},
            "abstract_instructions": R.insts,
            "call_sites_followed": R.callsites,
            "exit_states": R.states,
            "fm_queries": lin.STATS["fm"],
            "fm_gave_up": lin.STATS["fm_giveup"],
            "entries_not_finished": ["%s: %s" % x for x in R.lost],
            "calls_without_model": sorted(R.unmodelled),
            "loops_cut": sorted(R.incomplete),
            "samples": R.samples or ["-"],
            "notes": R.notes,
        },
        "assumptions": prop.get("assumptions", []),
        "wall_s": round(wall, 3),
        "violations": len(real),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    rep = os.path.join(VERIF, "evidence", pid + ".violation.txt")
    print("%s: %d entry functions, %d functions analysed, %d obligations, %d discharged, %d undecided, %.1fs" %
          (pid, len(R.entry), len(R.functions), R.obligations, R.discharged, len(R.unknown), wall))
    for f, why in R.lost[:20]:
        print("  undecided: entry %s was not analysed to the end (%s)" % (f, why))
    for v in R.unknown[:20]:
        print("  undecided: %s (%s) in %s called from %s at %s %s" %
              (v["what"], v["rule"], v["function"], v["entry"], v["where"], v.get("detail") or ""))
    if real:
        with open(rep, "w") as f:
            for v in real:
                f.write("rule %s: %s\n  at %s in %s (entry %s, unit %s)\n" %
                        (v["rule"], v["what"], v["where"], v["function"], v["entry"], v["unit"]))
                if v["detail"]:
                    f.write("  abstract values: %s\n" % v["detail"])
                for p in v["path"]:
                    f.write("    %s\n" % p)
        for v in real[:10]:
            print("  broken: %s (%s) in %s at %s, entry %s %s" %
                  (v["what"], v["rule"], v["function"], v["where"], v["entry"], v["detail"] or ""))
            if v["path"]:
                print("    path: " + " > ".join(v["path"]))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    if os.path.exists(rep):
        os.unlink(rep)
    return 0
