"""Compile /repo's current working tree to LLVM bitcode and dump it as JSON.

Nothing from the tree is run.  The same sources, include paths and defines as
the project's own build are used (see Makefile / configure), with clang instead
of gcc.  Everything is written to a scratch directory that is removed again.
"""
import glob, json, os, shutil, subprocess, sys, tempfile, fcntl, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LAIK_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin"
CLANG = LLVM + "/clang"


class AnalysisError(Exception):
    """The analysis itself is broken (error exit, neither pass nor violation)."""


def engine():
    """Build the IR dumper when missing or older than its source."""
    src = os.path.join(VERIF, "engine", "laikir.cpp")
    bdir = os.path.join(VERIF, "build")
    os.makedirs(bdir, exist_ok=True)
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(bdir, "laikir-" + h)
    if os.path.exists(exe):
        return exe
    with open(os.path.join(bdir, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        cxx = subprocess.check_output([LLVM + "/llvm-config", "--cxxflags"], text=True).split()
        ld = subprocess.check_output([LLVM + "/llvm-config", "--ldflags", "--libs"], text=True).split()
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run([LLVM + "/clang++", *cxx, "-w", "-O1", src, "-o", tmp, *ld],
                           capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError("cannot build engine:\n" + r.stderr[-3000:])
        os.rename(tmp, exe)
    return exe


def _cmd_out(cmd):
    try:
        return subprocess.check_output(cmd, text=True, stderr=subprocess.DEVNULL).split()
    except Exception:
        return []


def flags(scratch):
    f = ["-std=gnu99", "-fPIC", "-DUSE_MPI", "-DUSE_TCP", "-DUSE_TCP2",
         "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + scratch]
    f += _cmd_out(["pkg-config", "--cflags", "gio-2.0"]) or [
        "-I/usr/include/glib-2.0", "-I/usr/lib/x86_64-linux-gnu/glib-2.0/include"]
    f += [x for x in _cmd_out(["mpicc", "-showme:compile"]) if x.startswith("-")]
    f = [x for x in f if x != "-pthread"]
    return f


def lib_sources():
    s = sorted(glob.glob(REPO + "/src/*.c")) + sorted(glob.glob(REPO + "/src/backends/tcp/*.c"))
    if len(s) < 30:
        raise AnalysisError("only %d library sources found under %s/src" % (len(s), REPO))
    return s


def compile_bc(scratch, sources, extra=()):
    with open(os.path.join(scratch, "git-version.h"), "w") as f:
        f.write('#define GIT_VERSION "static"\n')
    fl = flags(scratch)

    def one(i_s):
        i, s = i_s
        out = os.path.join(scratch, "%03d-%s.bc" % (i, os.path.basename(s)))
        r = subprocess.run([CLANG, "-w", "-O0", "-g", "-fno-discard-value-names", "-Xclang",
                            "-disable-O0-optnone", "-emit-llvm", "-c", *fl, *extra, s, "-o", out],
                           capture_output=True, text=True)
        return s, out, r
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, enumerate(sources)))
    for s, out, r in res:
        if r.returncode:
            raise AnalysisError("cannot compile %s:\n%s" % (s, r.stderr[-2000:]))
    return [o for _, o, _ in res]


def analyse(jobs=(), sources=None, base="function(mem2reg)", dump=True, keep=None):
    """Returns the JSON dump (python dict)."""
    exe = engine()
    scratch = tempfile.mkdtemp(prefix="laikcheck-")
    try:
        srcs = sources if sources is not None else lib_sources()
        bcs = compile_bc(scratch, srcs)
        jf = os.path.join(scratch, "jobs.json")
        json.dump({"base": base, "dump": dump, "jobs": list(jobs)}, open(jf, "w"))
        of = os.path.join(scratch, "out.json")
        r = subprocess.run([exe, of, jf, *bcs], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError("engine failed (%d): %s" % (r.returncode, r.stderr[-3000:]))
        if keep:
            shutil.copy(of, keep)
        return json.load(open(of, encoding="utf-8", errors="replace"))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
