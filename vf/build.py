"""Builds nikfemm from /repo's working tree in several flavours, plus the harness binaries.

Everything is compiled straight from /repo's current sources; nothing of /repo is written.
Objects are cached under /verif/.build by a hash of every source file, the flags and the compiler.
"""
import hashlib, os, shutil, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
SRC = os.path.join(REPO, "lib/nikfemm/src")
INC = os.path.join(REPO, "lib/nikfemm/include")
JOBS = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 4))))

BASE = ["-std=c++20", "-mavx", "-fPIC", "-w", "-I" + SRC, "-I" + INC]
FLAVOURS = {
    # the optimiser the project uses, with the standard library's own precondition checks on
    "plain": ["-O2", "-g1", "-D_GLIBCXX_ASSERTIONS"],
    "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
             "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    # for valgrind: no AVX-512 surprises, debug info
    "vg": ["-O1", "-g"],
    "opencv": ["-O1", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-DNIKFEMM_USE_OPENCV", "-isystem", "/usr/include/opencv4",
               "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"],
}
LINK = {
    "plain": [], "asan": ["-fsanitize=address,undefined"], "tsan": ["-fsanitize=thread"], "vg": [],
    "opencv": ["-fsanitize=address,undefined,float-cast-overflow", "-lopencv_core", "-lopencv_highgui", "-lopencv_imgproc", "-lopencv_imgcodecs"],
}


class BuildError(Exception):
    pass


def _sources():
    out = []
    for root, _, files in os.walk(SRC):
        for f in files:
            if f.endswith(".cpp"):
                out.append(os.path.join(root, f))
    return sorted(out)


def _tree_hash(extra):
    h = hashlib.sha256()
    for base in (SRC, INC):
        for root, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def _run(cmd, what, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=cwd)
    if p.returncode != 0:
        raise BuildError("%s failed (%d)\n%s\n%s" % (what, p.returncode, " ".join(cmd), p.stdout[-6000:]))


def _prune(keep):
    """keep the cache small: drop old build directories."""
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)]
        ds = sorted((d for d in ds if os.path.isdir(d) and d != keep), key=os.path.getmtime)
        for d in ds[:-12]:
            shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def build(harnesses, flavour, extra_flags=(), extra_link=()):
    """Compile the library in `flavour` and each harness (a .cpp below /verif/harness); returns {name: binary}."""
    flags = BASE + FLAVOURS[flavour] + list(extra_flags)
    hdrs = b"".join(open(p, "rb").read() for p in sorted(glob.glob(os.path.join(VERIF, "harness", "*.hpp"))))
    th = _tree_hash([flags])
    d = os.path.join(BUILD, "%s-%s" % (flavour, th))
    os.makedirs(d, exist_ok=True)
    os.utime(d)
    _prune(d)
    lib = os.path.join(d, "libnikfemm.a")
    jobs = []
    objs = []
    if not os.path.exists(lib):
        for s in _sources():
            o = os.path.join(d, os.path.relpath(s, SRC).replace("/", "_") + ".o")
            objs.append(o)
            if not os.path.exists(o):
                jobs.append((os.path.getsize(s), ["g++"] + flags + ["-c", s, "-o", o + ".tmp"], o))
    bins = {}
    hjobs = []
    for h in harnesses:
        src = os.path.join(VERIF, "harness", h + ".cpp")
        hh = hashlib.sha256(open(src, "rb").read() + hdrs).hexdigest()[:16]
        o = os.path.join(d, "%s-%s.o" % (h, hh))
        b = os.path.join(d, "%s-%s.bin" % (h, hh))
        bins[h] = b
        if not os.path.exists(b):
            hjobs.append((o, b))
            if not os.path.exists(o):
                jobs.append((10 ** 7, ["g++"] + flags + ["-I" + os.path.join(VERIF, "harness"), "-c", src, "-o", o + ".tmp"], o))
    jobs.sort(key=lambda j: -j[0])

    def one(j):
        _run(j[1], "compiling " + j[2])
        os.replace(j[2] + ".tmp", j[2])
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, jobs))
    if objs:
        if os.path.exists(lib + ".tmp"):
            os.unlink(lib + ".tmp")
        _run(["ar", "rcs", lib + ".tmp"] + objs, "ar")
        os.replace(lib + ".tmp", lib)

    def link(j):
        o, b = j
        _run(["g++"] + flags + [o, lib, "-o", b + ".tmp", "-lpthread"] + LINK[flavour] + list(extra_link), "linking " + b)
        os.replace(b + ".tmp", b)
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(link, hjobs))
    return bins


if __name__ == "__main__":
    print(build(sys.argv[2:], sys.argv[1]))
