#!/usr/bin/env python3
"""Behaviour-preserving rewrites the checks must stay quiet on: refac.py [id...]  (table in refacs.py).

Each is applied to a scratch copy of /repo, built, the module's own tests are run, and the listed checks are run against it."""
import os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refacs import REFACS
FLAGS = '-S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_C_COMPILER=gcc "-DCMAKE_C_FLAGS_DEBUG=-g -Wno-error" -DHAVE_BACKTRACE=1'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)


def edit(t, old, new):
    if old.startswith("fn:"):
        m = re.search(r"^(?:[a-z_][^\n;={}]*[ *]|)%s\([^;{}]*\)\n\{\n.*?^\}\n" % re.escape(old[3:]), t, re.S | re.M)
        if not m:
            return None
        # the POSIX/Linux version comes after a Windows one in some files
        ms = list(re.finditer(r"^(?:[a-z_][^\n;={}]*[ *]|)%s\([^;{}]*\)\n\{\n.*?^\}\n" % re.escape(old[3:]), t, re.S | re.M))
        m = ms[-1] if len(ms) > 1 and not old.startswith("fn:sc_sock_poll") else ms[0]
        return t[:m.start()] + new.lstrip("\n") + t[m.end():]
    if old in ("polladd:", "polldel:"):         # the Linux one is the first of three
        m = re.search(r"^int sc_sock_poll_%s\([^;{}]*\)\n\{\n.*?^\}\n" % old[4:7], t, re.S | re.M)
        return t[:m.start()] + new + t[m.end():]
    if old.startswith("mac:"):
        m = re.search(r"^#define %s\((?:[^\n]*\\\n)*[^\n]*\n" % re.escape(old[4:]), t, re.M)
        if not m:
            return None
        return t[:m.start()] + new.lstrip("\n") + t[m.end():]
    if t.count(old) != 1:
        return None
    return t.replace(old, new)


def one(r):
    tmp = tempfile.mkdtemp(prefix="refac")
    base = tmp + "/repo"
    try:
        shutil.copytree("/repo", base, ignore=shutil.ignore_patterns("_build"))
        mods = set()
        for f, old, new in r["edits"]:
            t = open(base + "/" + f).read()
            n = edit(t, old, new)
            if n is None:
                return "%-26s NO MATCH %r in %s" % (r["id"], old[:50], f)
            open(base + "/" + f, "w").write(n)
            mods.add(f.split("/")[0])
        quick = os.environ.get("PROPS")
        if not quick:
            sh("cmake " + FLAGS, cwd=base)
        b = sh("true" if quick else "ninja -C _build " + " ".join(sorted("%s/all" % m for m in mods)), cwd=base)
        if b.returncode:
            return "%-26s BUILD FAILS %s" % (r["id"], (b.stdout + b.stderr)[-600:])
        tests = []
        for m in mods:
            for root, _, fs in os.walk(base + "/_build/" + m):
                for x in fs:
                    if x.endswith("_test") and os.access(root + "/" + x, os.X_OK):
                        tests.append(sh("timeout 100 ./" + x, cwd=root).returncode)
        out = []
        for p in (quick or r["props"]).split(","):
            t0 = time.time()
            c = subprocess.run(["python3", "/verif/check.py", p, "quick"], env=dict(os.environ, SC_REPO=base), capture_output=True, text=True)
            tail = ""
            if c.returncode:
                tail = " ALARM " + " | ".join([l.strip() for l in c.stdout.splitlines() if "broken" in l][:3] or [(c.stdout + c.stderr)[-300:]])
            else:
                m = re.search(r"(\d+) undecided", c.stdout)
                if m and m.group(1) != "0":
                    tail = " (%s undecided)" % m.group(1)
                    if os.environ.get("SHOW"):
                        tail += "\n" + "\n".join(l for l in c.stdout.splitlines() if "undecided:" in l)
            out.append("%s%s %.0fs" % (p, tail, time.time() - t0))
        return "%-26s tests=%s %s" % (r["id"], tests, "; ".join(out))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main(ids):
    rs = [r for r in REFACS if not ids or any(r["id"].startswith(i) for i in ids)]
    with ThreadPoolExecutor(3) as ex:
        for o in ex.map(one, rs):
            print(o, flush=True)


main(sys.argv[1:])
