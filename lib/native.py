"""Mirror /repo's working tree by content and (re)build the compiler from it.

The mirror lives in /verif/.cache/src (git-ignored); a file there is only
rewritten when its bytes differ from /repo's, so that ninja's time stamps mean
"content changed" whatever happened to the time stamps under /repo."""
import os, subprocess, sys, filecmp, shutil, fcntl, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
SRC = os.path.join(CACHE, "src")
BUILD = os.path.join(CACHE, "native")
SKIP_TOP = {"_build", ".git", "tests", "docs", "build"}


def sync(dst=SRC):
    os.makedirs(dst, exist_ok=True)
    want = set()
    changed = []
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        if rel == ".":
            dirs[:] = [d for d in dirs if d not in SKIP_TOP]
            rel = ""
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        for f in files:
            r = os.path.join(rel, f)
            want.add(r)
            s, d = os.path.join(root, f), os.path.join(dst, r)
            if os.path.islink(s) and not os.path.exists(s):
                continue
            if os.path.exists(d) and filecmp.cmp(s, d, shallow=False):
                continue
            if os.path.exists(d):
                os.unlink(d)
            shutil.copyfile(s, d)
            shutil.copymode(s, d)
            changed.append(r)
    for root, dirs, files in os.walk(dst):
        rel = os.path.relpath(root, dst)
        rel = "" if rel == "." else rel
        for f in files:
            r = os.path.join(rel, f)
            if r not in want:
                os.unlink(os.path.join(root, f))
                changed.append(r)
    return changed


class BuildError(Exception):
    pass


def lock():
    os.makedirs(CACHE, exist_ok=True)
    f = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def build(verbose=True):
    """Returns the path of a minizinc binary built from /repo's current tree."""
    lk = lock()
    t = time.time()
    ch = sync()
    env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++", CCACHE_DISABLE="1")
    if not os.path.exists(os.path.join(BUILD, "build.ninja")):
        run(["cmake", "-S", SRC, "-B", BUILD, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release",
             "-DCMAKE_CXX_FLAGS_RELEASE=-O1 -DNDEBUG", "-DCMAKE_C_FLAGS_RELEASE=-O1 -DNDEBUG"], env=env)
    run(["ninja", "-C", BUILD, "minizinc"], env=env)
    lk.close()
    if verbose:
        print("native build: %d file(s) changed, %.1f s" % (len(ch), time.time() - t), flush=True)
    return os.path.join(BUILD, "minizinc")


SHARE = os.path.join(SRC, "share", "minizinc")

if __name__ == "__main__":
    print(build())
