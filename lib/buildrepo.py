"""Builds /repo's current working tree into a content-addressed copy outside /repo.

tree(kind) -> directory to put on sys.path. kind: "release", "asan" (sanitizers, bounds checks) or
"asanr" (sanitizers, the directives of the release build).
The copy holds sonolus/ (with freshly compiled extensions) and test_projects/.
Nothing of /repo's own build products is used: a stale .so there cannot hide a change.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SKIP = (".so", ".cpp", ".pyc", ".o")


def cache_dir():
    d = os.path.join(VERIF, ".cache")
    try:
        os.makedirs(d, exist_ok=True)
        t = tempfile.TemporaryFile(dir=d)
        t.close()
        return d
    except OSError:
        d = os.path.join(tempfile.gettempdir(), "verif-cache")
        os.makedirs(d, exist_ok=True)
        return d


def _files(top):
    for root, dirs, files in os.walk(os.path.join(REPO, top)):
        dirs[:] = sorted(d for d in dirs if d not in ("__pycache__", ".git", "node_modules") and not (top == "test_projects" and d in ("build", "dist")))
        for f in sorted(files):
            if not f.endswith(SKIP):
                p = os.path.join(root, f)
                if os.path.isfile(p):
                    yield os.path.relpath(p, REPO)


def _hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        with open(os.path.join(REPO, p), "rb") as f:
            data = f.read()
        h.update(f"{p}\0{len(data)}\0".encode())
        h.update(data)
    return h.hexdigest()[:20]


SETUP = r'''
import os, sys
from Cython.Build import cythonize
from setuptools import Extension, setup
kind = sys.argv.pop(1)
DEBUG = kind == "asan"
cflags = ["-g0"] if kind == "release" else ["-g1", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
    "-fno-sanitize-recover=all", "-fno-sanitize=vptr", "-include", sys.argv.pop(1)]
# signed overflow is reported although python's own flags ask for wrapping
if kind != "release": cflags += ["-fno-wrapv"]
lflags = [] if kind == "release" else ["-fsanitize=address,undefined"]
ext = [Extension("sonolus.backend._opt.*", ["sonolus/backend/_opt/*.pyx"], language="c++",
    include_dirs=["sonolus/backend/_opt"], extra_compile_args=cflags, extra_link_args=lflags,
    undef_macros=["NDEBUG"] if DEBUG else [])]
setup(name="x", ext_modules=cythonize(ext, nthreads=7, quiet=True, compiler_directives={
    "language_level": "3", "cdivision": True, "boundscheck": DEBUG, "wraparound": DEBUG}))
'''


def tree(kind="release"):
    cache = cache_dir()
    src = list(_files("sonolus"))
    proj = list(_files("test_projects"))
    native = [p for p in src if "/_opt/" in p]
    helper = ""
    if kind != "release":
        for n in ("verif_alloc.h", "verif_alloc.c"):
            with open(os.path.join(VERIF, "lib", n)) as f:
                helper += f.read()
    nh = _hash(native, kind + SETUP + helper + sys.version)
    th = _hash(src + proj, nh)
    out = os.path.join(cache, f"tree-{kind}-{th}")
    with open(os.path.join(cache, f"lock-{kind}"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, ".ok")):
            os.utime(out)  # in use: not the first to be pruned
            return out
        ndir = os.path.join(cache, f"native-{kind}-{nh}")
        tmp = tempfile.mkdtemp(prefix="build-", dir=cache)
        try:
            for p in src + proj:
                dst = os.path.join(tmp, p)
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copyfile(os.path.join(REPO, p), dst)
            opt = os.path.join(tmp, "sonolus/backend/_opt")
            if not os.path.exists(os.path.join(ndir, ".ok")):
                with open(os.path.join(tmp, "vsetup.py"), "w") as f:
                    f.write(SETUP)
                env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
                env.pop("LD_PRELOAD", None)
                r = subprocess.run([PY, "vsetup.py", kind, *([os.path.join(VERIF, "lib", "verif_alloc.h")] if kind != "release" else []), "-q", "build_ext", "--inplace", "-j", "8"], cwd=tmp, env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    sys.stderr.write(r.stdout[-8000:])
                    sys.stderr.write("buildrepo: the extensions do not build\n")
                    raise SystemExit(2)
                shutil.rmtree(ndir, ignore_errors=True)
                os.makedirs(ndir)
                if kind != "release":
                    subprocess.run(["gcc", "-O1", "-g", "-shared", "-fPIC", "-o", os.path.join(ndir, "libverifalloc.so.1"),
                                    os.path.join(VERIF, "lib", "verif_alloc.c")], check=True)
                for f in os.listdir(opt):
                    if f.endswith(".so"):
                        shutil.copyfile(os.path.join(opt, f), os.path.join(ndir, f))
                open(os.path.join(ndir, ".ok"), "w").close()
                shutil.rmtree(os.path.join(tmp, "build"), ignore_errors=True)
            for f in os.listdir(ndir):
                if f.endswith((".so", ".so.1")):
                    shutil.copyfile(os.path.join(ndir, f), os.path.join(opt, f))
            for f in os.listdir(opt):
                if f.endswith(".cpp"):
                    os.remove(os.path.join(opt, f))
            shutil.rmtree(out, ignore_errors=True)
            os.rename(tmp, out)
            open(os.path.join(out, ".ok"), "w").close()
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        _prune(cache, keep={os.path.basename(out), os.path.basename(ndir)})
    return out


def _prune(cache, keep, limit=12):
    for pre in ("tree-", "native-"):
        es = sorted((e for e in os.listdir(cache) if e.startswith(pre) and e not in keep),
                    key=lambda e: os.path.getmtime(os.path.join(cache, e)))
        for e in es[:-limit] if len(es) > limit else []:
            shutil.rmtree(os.path.join(cache, e), ignore_errors=True)


if __name__ == "__main__":
    for k in sys.argv[1:] or ["release"]:
        print(tree(k))
