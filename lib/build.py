#!/usr/bin/env python3
"""Builds the gandalf library and the harness programs from /repo's current working tree.

Objects are cached in /verif/build/cache under a hash of (flags, preprocessed text), so a cached
object is only reused when it would come out identical; nothing depends on file times."""
import os, subprocess, hashlib, sys, fcntl, re, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(REPO, "src")
DEFS = ["-DGANDALF_DOUBLE_PRECISION", "-DGANDALF_GSL", "-DDEBUG1", "-DGANDALF_VERIF"]
INC = ["-I" + os.path.join(SRC, "Headers")]
VARIANTS = {
    "std": ["-O1", "-g0", "-fPIC"],
    "asan": ["-O1", "-g1", "-fPIC", "-fsanitize=address,undefined", "-fno-sanitize=vptr,float-divide-by-zero,float-cast-overflow",
             "-fno-omit-frame-pointer"],
    "ubsan": ["-O1", "-g1", "-fPIC", "-fsanitize=undefined", "-fno-sanitize=vptr"],
}
CXX = "g++"
DIRS = ["Common", "Feedback", "GradhSph", "Hydrodynamics", "Ic", "MeshlessFV", "Nbody",
        "Radiation", "SM2013", "Thermal", "Tree"]
SKIP = {"gandalf.cpp"}
# calls whose definition is in another translation unit, intercepted by the harness
WRAP = ["-Wl,--wrap=_ZN5SinksILi%dEE%sEidP13HydrodynamicsILi%dEEP5NbodyILi%dEE" % (d, f, d, d)
        for d in (1, 2, 3) for f in ("25SearchForNewSinkParticles", "18AccreteMassToSinks")]
LINK = {"gdrv": WRAP}
JOBS = os.cpu_count() or 4


class BuildError(Exception):
    pass


def sources():
    """Source files named by OBJ in src/Makefile, and Exception.cpp / Render.cpp."""
    mk = open(os.path.join(SRC, "Makefile")).read()
    mk = re.sub(r"ifeq \(\$\(MPI\),1\)\nOBJ.*?endif", "", mk, flags=re.S)
    names = []
    for line in re.findall(r"^OBJ\s*\+?=\s*(.*)$", mk, flags=re.M):
        names += re.findall(r"(\w+)\.o\b", line)
    names += ["Exception", "Render"]
    idx = {}
    for root, dirs, fs in os.walk(SRC):
        dirs[:] = [d for d in dirs if d not in ("Mpi", "UnitTesting")]
        for f in fs:
            b, e = os.path.splitext(f)
            if e in (".cpp", ".c"):
                idx.setdefault(b, os.path.join(root, f))
    out = []
    for n in dict.fromkeys(names):
        if n in idx:
            out.append(idx[n])
    # sources that are in the tree but not in the Makefile are not part of the program
    return out


def _flags(src, variant):
    fl = list(VARIANTS[variant]) + DEFS + INC + ["-w"]
    return fl


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def compile_one(src, variant, extra=()):
    fl = _flags(src, variant) + list(extra)
    cxx = CXX if not src.endswith(".c") else CXX
    pp = _run([cxx] + fl + ["-E", "-P", src])
    if pp.returncode:
        raise BuildError("preprocess %s\n%s" % (src, pp.stderr.decode(errors="replace")[-3000:]))
    # asserts embed line numbers in the expansion, so -P text is complete for behaviour
    h = hashlib.sha256(("\0".join([cxx, src] + fl) + "\0").encode() + pp.stdout).hexdigest()[:32]
    cdir = os.path.join(BUILD, "cache")
    obj = os.path.join(cdir, h + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = _run([cxx] + fl + ["-c", src, "-o", tmp])
        if r.returncode:
            raise BuildError("compile %s\n%s" % (src, r.stderr.decode(errors="replace")[-3000:]))
        os.rename(tmp, obj)
    else:
        os.utime(obj)
    return obj


def _prune(limit=3000):
    cdir = os.path.join(BUILD, "cache")
    fs = [os.path.join(cdir, f) for f in os.listdir(cdir)]
    if len(fs) > limit:
        fs.sort(key=os.path.getmtime)
        for f in fs[:len(fs) - limit]:
            os.unlink(f)


class Lock:
    def __enter__(self):
        os.makedirs(os.path.join(BUILD, "cache"), exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def build(harness, variant="std", need=None, libs=("-lgsl", "-lgslcblas", "-lm"), main=None):
    """Build harness/<harness>.cpp linked with all of gandalf; returns the program's path.
    main: build a repo main file instead of a harness (e.g. Common/gandalf.cpp)."""
    with Lock():
        src = main and os.path.join(SRC, main) or os.path.join(VERIF, "harness", harness + ".cpp")
        ss = sources()
        with ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(compile_one, s, variant) for s in
                    sorted(ss, key=lambda p: -os.path.getsize(p))]
            hf = ex.submit(compile_one, src, variant, ("-I" + os.path.join(VERIF, "harness"), "-fno-access-control"))
            objs = [f.result() for f in futs]
            hobj = hf.result()
        key = hashlib.sha256("\0".join([hobj] + objs + [variant] + LINK.get(harness, [])).encode()).hexdigest()[:24]
        exe = os.path.join(BUILD, "%s-%s-%s" % (harness, variant, key))
        if not os.path.exists(exe):
            for f in os.listdir(BUILD):
                if f.startswith("%s-%s-" % (harness, variant)):
                    p = os.path.join(BUILD, f)
                    if len(f) > 0 and f != os.path.basename(exe):
                        try:
                            if os.path.getmtime(p) < __import__("time").time() - 7200:
                                os.unlink(p)
                        except OSError:
                            pass
            ar = os.path.join(BUILD, key + ".a")
            if os.path.exists(ar):
                os.unlink(ar)
            _run(["ar", "rcs", ar] + objs)
            tmp = exe + ".tmp"
            r = _run([CXX] + VARIANTS[variant] + [hobj, ar, "-o", tmp] + LINK.get(harness, []) + list(libs))
            os.unlink(ar)
            if r.returncode:
                raise BuildError("link %s\n%s" % (harness, r.stderr.decode(errors="replace")[-3000:]))
            os.rename(tmp, exe)
            _prune()
        return exe


if __name__ == "__main__":
    for a in sys.argv[1:]:
        h, _, v = a.partition(":")
        if h == "gandalf":
            print(build("gandalf", v or "std", main="Common/gandalf.cpp"))
        else:
            print(build(h, v or "std"))
