#!/usr/bin/env python3
"""Make and try the planted bugs: seed.py [id...]  (table in seeds.py; writes /verif/seeded/<id>/).

For each: the change is made in a scratch copy of /repo, the copy is built, the module's own tests are run, the demo is run with
and without the change, and the property's check is run against the copy."""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
OUT = "/verif/seeded"
SH = '''#!/bin/bash
# cwd: the repository
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -r -- "$d"' EXIT
%s -g -O0 -w %s %s "$here/demo.c" %s -o "$d/demo" -lpthread || exit 3
cd "$d" && ASAN_OPTIONS=detect_leaks=%d:abort_on_error=0 timeout 100 "$d/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main(ids, quick):
    tmp = tempfile.mkdtemp(prefix="seed")
    base = tmp + "/repo"
    shutil.copytree("/repo", base, ignore=shutil.ignore_patterns("_build"))
    flags = '-S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_C_COMPILER=gcc "-DCMAKE_C_FLAGS_DEBUG=-g -Wno-error" -DHAVE_BACKTRACE=1'
    sh("git checkout -q -- . && cmake %s && ninja -C _build" % flags, cwd=base)
    for s in SEEDS:
        if ids and s["id"] not in ids:
            continue
        d = "%s/%s" % (OUT, s["id"])
        os.makedirs(d, exist_ok=True)
        sh("git checkout -q -- .", cwd=base)
        bad = None
        for f, old, new in s["edits"]:
            t = open(base + "/" + f).read()
            if t.count(old) != 1:
                bad = "%d matches of %r in %s" % (t.count(old), old[:60], f)
                break
            open(base + "/" + f, "w").write(t.replace(old, new))
        if bad:
            print(s["id"], bad)
            continue
        open(d + "/patch.diff", "w").write(sh("git diff", cwd=base).stdout)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)
        mods = sorted({f.split("/")[0] for f, _, _ in s["edits"]})
        srcs = s.get("srcs")
        if srcs is None:
            srcs = sorted({f for f, _, _ in s["edits"] if f.endswith(".c")})
        inc = " ".join('-I"$repo/%s"' % m for m in sorted(set(mods) | {x.split("/")[0] for x in srcs}))
        san = s.get("san", "-fsanitize=address,undefined -fno-sanitize-recover=all")
        open(d + "/demo.c", "w").write(s["demo"].lstrip("\n"))
        for n, c in s.get("files", {}).items():
            open(d + "/" + n, "w").write(c.lstrip("\n"))
        extra = s.get("cflags", "")
        if "config.h" in s.get("files", {}):
            extra += ' -DSC_HAVE_CONFIG_H -I"$here"'
        open(d + "/demo.sh", "w").write(SH % (s.get("cc", "gcc"), san, extra + " " + inc, " ".join('"$repo/%s"' % x for x in srcs), s.get("leaks", 1)))
        r = sh("ninja -C _build", cwd=base)
        build = r.returncode == 0
        tests = []
        for m in mods:
            for root, _, fs in os.walk(base + "/_build/" + m):
                for x in fs:
                    if x.endswith("_test") and os.access(root + "/" + x, os.X_OK):
                        try:
                            tests.append(sh("timeout 100 ./" + x, cwd=root).returncode)
                        except UnicodeDecodeError:
                            tests.append("?")
        def demo():
            r = subprocess.run(["bash", d + "/demo.sh"], cwd=base, capture_output=True)
            return r.returncode, (r.stdout + r.stderr)[-200:]
        on = demo()
        p = subprocess.run(["python3", "/verif/check.py", s["prop"], "quick"], env=dict(os.environ, SC_REPO=base), capture_output=True, text=True)
        why = [l for l in p.stdout.splitlines() if "broken" in l][:1]
        sh("git checkout -q -- .", cwd=base)
        off = demo()
        ok = build and not any(tests) and on[0] not in (0, 3) and off[0] == 0
        print("%-22s %s %s build=%s tests=%s demo on=%d off=%d  check rc=%d %s" % (
            s["id"], s["prop"], "VALID" if ok else "INVALID", build, tests, on[0], off[0], p.returncode, (why or [p.stdout[-200:]])[0].strip()[:140]))
        if off[0]:
            print("   off:", off[1].decode(errors="replace"))
        if on[0] == 3:
            print("   on:", on[1].decode(errors="replace"))
        sys.stdout.flush()
    shutil.rmtree(tmp)


main([a for a in sys.argv[1:] if not a.startswith("-")], "-q" in sys.argv)
