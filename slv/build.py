"""Regenerate, from /repo's working tree, (a) the LLVM IR that is executed symbolically and
(b) a shared library of the real code that counterexamples are replayed against."""
import os, subprocess, shutil, tempfile, atexit, hashlib, glob, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("SLV_REPO", "/repo")


def _tool(*names):
    for n in names:
        if os.path.isabs(n):
            if os.path.exists(n):
                return n
        else:
            p = shutil.which(n, path="/usr/lib/llvm-18/bin:/usr/local/bin:/usr/bin:/bin:" + os.environ.get("PATH", ""))
            if p:
                return p
    raise RuntimeError("tool not found: %r" % (names,))


CLANG = _tool("/usr/lib/llvm-18/bin/clang++", "clang++-18", "clang++")
LINK = _tool("/usr/lib/llvm-18/bin/llvm-link", "llvm-link-18", "llvm-link")
OPT = _tool("/usr/lib/llvm-18/bin/opt", "opt-18", "opt")
GXX = _tool("/usr/bin/g++", "g++")
GCC = _tool("/usr/bin/gcc", "gcc")


class BuildError(Exception):
    pass


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stderr[-3000:]))
    return r.stdout


SLEEP_STUB = r"""
#include <time.h>
#include <errno.h>
long slv_sleep_sec[16], slv_sleep_nsec[16];
int slv_sleeps = 0;
long slv_remaining = -1;     /* the first sleep is interrupted with this many seconds left */
int nanosleep(const struct timespec *req, struct timespec *rem) {
    if (slv_sleeps < 16) { slv_sleep_sec[slv_sleeps] = req->tv_sec; slv_sleep_nsec[slv_sleeps] = req->tv_nsec; }
    slv_sleeps++;
    if (slv_remaining >= 0 && req->tv_sec >= slv_remaining) {
        if (rem) { rem->tv_sec = slv_remaining; rem->tv_nsec = 0; }
        slv_remaining = -1;
        errno = EINTR;
        return -1;
    }
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *req, struct timespec *rem) { return nanosleep(req, rem) ? errno : 0; }
unsigned sleep(unsigned s) { struct timespec t = { s, 0 }; return nanosleep(&t, &t) ? t.tv_sec : 0; }
int usleep(unsigned u) { struct timespec t = { u / 1000000, (u % 1000000) * 1000L }; return nanosleep(&t, &t); }
"""


def build(workdir=None):
    """Returns dict(ll=path, so=path, dir=path)."""
    own = workdir is None
    if own:
        workdir = tempfile.mkdtemp(prefix="slv_build_")
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(workdir, ignore_errors=True)
        atexit.register(clean)
    src = os.path.join(REPO, "src")
    files = sorted(glob.glob(os.path.join(src, "*.cc")))
    lls = []

    def one(f):
        b = os.path.basename(f)
        out = os.path.join(workdir, b + ".ll")
        base = [CLANG, "-std=c++17", "-O0", "-Xclang", "-disable-O0-optnone", "-ffp-contract=off", "-fno-exceptions",
                "-fno-discard-value-names", "-w", "-S", "-emit-llvm", "-I" + src, f, "-o", out]
        try:
            _run(base)
        except BuildError:
            base.remove("-fno-exceptions")
            _run(base)
        o = os.path.join(workdir, b + ".o")
        return out, o

    def obj(f):
        o = os.path.join(workdir, os.path.basename(f) + ".o")
        _run([GXX, "-std=c++17", "-O1", "-fPIC", "-w", "-c", "-I" + src, f, "-o", o])
        return o

    with ThreadPoolExecutor(8) as ex:
        a = list(ex.map(one, files))
        objs = list(ex.map(obj, files))
    lls = [x[0] for x in a]
    allb = os.path.join(workdir, "all.bc")
    _run([LINK] + lls + ["-o", allb])
    ll = os.path.join(workdir, "all.ll")
    _run([OPT, "-S", "-passes=mem2reg,instsimplify", allb, "-o", ll])
    so = os.path.join(workdir, "libsla_replay.so")
    # the replay library gets a stand-in for sleeping: requests are recorded, and one can be interrupted early
    st = os.path.join(workdir, "sleep_stub")
    open(st + ".c", "w").write(SLEEP_STUB)
    _run([GCC, "-O1", "-fPIC", "-w", "-c", st + ".c", "-o", st + ".o"])
    _run([GXX, "-shared", "-Wl,-Bsymbolic", "-o", so] + objs + [st + ".o", "-lm"])
    return dict(ll=ll, so=so, dir=workdir)


def tree_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(REPO, "src", "*"))):
        if os.path.isfile(f):
            h.update(os.path.basename(f).encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()[:16]
