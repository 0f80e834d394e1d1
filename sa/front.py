"""Front end: compile a module of /repo's current tree to IR and parse it."""
import os
import shutil
import subprocess
import tempfile
from . import ir

REPO = os.environ.get("SC_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _tool(*names):
    for n in names:
        if os.path.isabs(n):
            if os.path.exists(n):
                return n
        else:
            p = shutil.which(n)
            if p:
                return p
    raise RuntimeError("no tool " + names[0])


CLANG = _tool("/usr/lib/llvm-18/bin/clang", "/usr/bin/clang-18", "clang-18", "clang")
OPT = _tool("/usr/lib/llvm-18/bin/opt", "/usr/bin/opt-18", "opt-18", "opt")

DIRS = ["array", "buffer", "condition", "crc32", "heap", "ini", "linked-list", "logger", "map", "memory-map", "mutex",
        "option", "perf", "queue", "sc", "signal", "socket", "string", "thread", "time", "timer", "uri"]


class FrontError(Exception):
    pass


def compile_ir(src, defs=(), extra=(), passes="mem2reg"):
    """src relative to /repo, or absolute (a witness unit of /verif)"""
    tmp = tempfile.mkdtemp(prefix="scsa.")
    try:
        ll = os.path.join(tmp, "a.ll")
        out = os.path.join(tmp, "b.ll")
        cmd = [CLANG, "-std=c99", "-D_GNU_SOURCE" if False else "-DSC_SA=1", "-S", "-emit-llvm", "-O0",
               "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-g", "-w", "-fno-builtin", "-Wno-error=implicit-function-declaration",
               "-Wno-error=int-conversion", "-Wno-error=incompatible-function-pointer-types",
               "-U_FORTIFY_SOURCE", "-DHAVE_BACKTRACE=1"]
        cmd += ["-D" + d for d in defs]
        for d in DIRS:
            cmd += ["-I" + os.path.join(REPO, d)]
        cmd += list(extra)
        cmd += [src, "-o", ll]
        r = subprocess.run(cmd, cwd=REPO, capture_output=True, text=True)
        if r.returncode != 0:
            raise FrontError("cannot compile %s:\n%s" % (src, r.stderr[:2000]))
        r = subprocess.run([OPT, "-S", "-passes=" + passes, ll, "-o", out], capture_output=True, text=True)
        if r.returncode != 0:
            raise FrontError("opt failed on %s:\n%s" % (src, r.stderr[:2000]))
        with open(out) as f:
            text = f.read()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return text


def load(src, defs=(), extra=()):
    m = ir.parse_module(compile_ir(src, defs, extra))
    m.path = src
    return m
