"""Builds mewa (program and Lua module) from /repo's working tree into a scratch directory.

The build takes every src/*.cpp of the tree as it is now (no list of file names is kept here), so a
refactoring that adds, splits or removes a source file still builds. Nothing is written to /repo.
"""
import concurrent.futures, hashlib, os, shutil, subprocess, sys, tempfile, time

REPO = os.environ.get("MEWA_REPO", "/repo")
CACHE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "build")
LUA_INC = "/usr/include/lua5.2"
LUA_BIN = "/usr/bin/lua5.2"
CXX = "g++"
FLAGS = ["-std=c++17", "-include", "cstdint", "-fPIC", "-O1", "-fvisibility=hidden", "-pthread", "-w"]


class BuildError(Exception):
    pass


def _sources():
    d = os.path.join(REPO, "src")
    return sorted(os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs
                  if f.endswith((".cpp", ".hpp", ".h", ".inc", ".in")))


def tree_hash():
    h = hashlib.sha256()
    for s in _sources():
        h.update(s.encode())
        with open(s, "rb") as f:
            h.update(f.read())
    h.update(" ".join(FLAGS).encode())
    return h.hexdigest()[:20]


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


def build(verbose=False):
    """Returns the directory that holds `mewa` and `mewa.so` built from the current tree."""
    out = os.path.join(CACHE, tree_hash())
    if os.path.exists(os.path.join(out, "done")):
        return out
    os.makedirs(CACHE, exist_ok=True)
    # keep at most a few old builds around
    olds = sorted((os.path.join(CACHE, d) for d in os.listdir(CACHE)), key=lambda d: os.lstat(d).st_mtime if os.path.lexists(d) else 0)
    for d in olds[:-6]:
        shutil.rmtree(d, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="b.", dir=CACHE)
    t0 = time.time()
    src = os.path.join(REPO, "src")
    cpps = [s for s in _sources() if s.endswith(".cpp")]
    if not os.path.exists(os.path.join(src, "version.hpp")):
        raise BuildError("no src/version.hpp")
    inc = ["-I" + src, "-I" + LUA_INC, "-I" + os.path.join(REPO, "include")]

    def comp(s):
        o = os.path.join(tmp, os.path.relpath(s, src).replace("/", "_")[:-4] + ".o")
        _run([CXX, *FLAGS, *inc, "-c", s, "-o", o])
        return o

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(comp, cpps))
    mains, luas, libs = [], [], []
    for o in objs:
        b = os.path.basename(o)
        if b == "mewa.o":
            mains.append(o)
        elif b.startswith("lua"):
            luas.append(o)
        else:
            libs.append(o)
    _run([CXX, "-shared", "-pthread", "-o", os.path.join(tmp, "mewa.so"), *libs, *luas, "-lm"])
    _run([CXX, "-pthread", "-o", os.path.join(tmp, "mewa"), *mains, *libs, "-lm"])
    for o in objs:
        if os.path.basename(o).startswith("lua") or os.path.basename(o) == "mewa.o":
            os.remove(o)
    open(os.path.join(tmp, "done"), "w").write("%.1f\n" % (time.time() - t0))
    try:
        os.rename(tmp, out)
    except OSError:
        if not os.path.exists(os.path.join(out, "done")):
            raise
        shutil.rmtree(tmp, ignore_errors=True)
    return out


if __name__ == "__main__":
    t = time.time()
    print(build(), "%.1fs" % (time.time() - t))
