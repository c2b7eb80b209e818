"""Build /repo's working tree in a scratch directory and describe it to the checks.

An overlay is a private copy of /repo/edpyt and /repo/edpyt_backend with the native parts
compiled from the *current* sources.  Compiled objects are kept under /verif/.build/cache,
keyed by a hash of everything that goes into them, so that consecutive checks in one
sandbox do not repeat a build; a changed source changes the key.
"""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EDPYT_REPO", "/repo")
PY = "/opt/venv/bin/python"
BUILD = os.path.join(VERIF, ".build")
CACHE = os.path.join(BUILD, "cache")


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e["PATH"] = "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PIP_NO_INDEX"] = "1"
    e.pop("PYTHONPATH", None)
    return e


def _hash(paths, salt=""):
    h = hashlib.sha256(salt.encode())
    for f in (os.path.join(VERIF, "lib", "overlay.py"), os.path.join(VERIF, "lib", "build_ext1.py")):
        h.update(open(f, "rb").read())
    for p in sorted(paths):
        h.update(os.path.basename(p).encode() + b"\0")
        with open(p, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _copy_sources(dst):
    """Copy the sources (no compiled objects, no C files that Cython would regenerate)."""
    for pkg in ("edpyt", "edpyt_backend"):
        src = os.path.join(REPO, pkg)
        gen = {os.path.basename(p)[:-4] + ".c" for p in glob.glob(os.path.join(src, "*.pyx"))}

        def ignore(d, names, gen=gen, src=src):
            bad = {n for n in names if n.endswith((".so", ".o", ".pyc", ".a")) or n == "__pycache__"}
            if os.path.abspath(d) == os.path.abspath(src):
                bad |= {n for n in names if n in gen}
            return bad
        shutil.copytree(src, os.path.join(dst, pkg), ignore=ignore)
    shutil.copy(os.path.join(REPO, "setup.py"), dst)


def _run(cmd, cwd, what, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env or _env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=600)
    if p.returncode:
        raise BuildError("%s failed:\n%s" % (what, p.stdout.decode(errors="replace")[-4000:]))


def _publish(tmp, files, key):
    """Move built files to the cache atomically."""
    os.makedirs(CACHE, exist_ok=True)
    stage = tempfile.mkdtemp(dir=CACHE)
    for f in files:
        shutil.copy(f, stage)
    dst = os.path.join(CACHE, key)
    try:
        os.rename(stage, dst)
    except OSError:
        shutil.rmtree(stage, ignore_errors=True)
    return dst


def build_ext(name, extra=("", "")):
    """Compile extension `name` (psparse / continued_fraction); returns the cache directory."""
    src = os.path.join(REPO, "edpyt")
    files = [f for ext in ("*.pyx", "*.pxd", "*.h", "*.c", "*.pxi") for f in glob.glob(os.path.join(src, ext))]
    gen = {os.path.join(src, os.path.basename(p)[:-4] + ".c") for p in glob.glob(os.path.join(src, "*.pyx"))}
    files = [f for f in files if f not in gen] + [os.path.join(REPO, "setup.py")]
    key = "ext-%s-%s" % (name, _hash(files, repr(extra)))
    dst = os.path.join(CACHE, key)
    if glob.glob(os.path.join(dst, "*.so")):
        return dst
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="bx-", dir=BUILD)
    try:
        _copy_sources(tmp)
        _run([PY, os.path.join(VERIF, "lib", "build_ext1.py"), name] + list(extra),
             tmp, "building " + name)
        sos = glob.glob(os.path.join(tmp, "edpyt", name + ".*.so"))
        if not sos:
            raise BuildError("no %s extension was produced" % name)
        return _publish(tmp, sos, key)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def backend_sources():
    src = os.path.join(REPO, "edpyt_backend")
    return [f for ext in ("*.c", "*.h", "*.sh", "fit.py") for f in glob.glob(os.path.join(src, ext))
            if os.path.basename(f) != "_fit.c"]


# Runs the repository's fit.py, with the absolute rpath of the scratch directory replaced by
# $ORIGIN so that the pair of shared objects can be moved.
_CFFI = """
import cffi, runpy
orig = cffi.FFI.set_source
def set_source(self, name, src, **kw):
    kw['extra_link_args'] = [a for a in kw.get('extra_link_args', []) if 'rpath' not in a] + ['-Wl,-rpath=$ORIGIN']
    return orig(self, name, src, **kw)
cffi.FFI.set_source = set_source
runpy.run_path('fit.py', run_name='__main__')
"""


def build_backend():
    """libfit.so with the repository's own script, and the cffi module beside it."""
    key = "backend-" + _hash(backend_sources())
    dst = os.path.join(CACHE, key)
    if glob.glob(os.path.join(dst, "*.so")):
        return dst
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="bb-", dir=BUILD)
    try:
        _copy_sources(tmp)
        d = os.path.join(tmp, "edpyt_backend")
        if os.path.exists(os.path.join(d, "_fit.c")):
            os.unlink(os.path.join(d, "_fit.c"))
        _run(["bash", "-e", "build_shared.sh"], d, "building libfit.so")
        # the cffi module records an absolute rpath to libfit.so: relink it with $ORIGIN.
        _run([PY, "-c", _CFFI], d, "building the cffi module")
        return _publish(tmp, [os.path.join(d, "libfit.so")] + glob.glob(os.path.join(d, "_fit.*.so")), key)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def make(needs=(), extra=("", "")):
    """Create an overlay; returns its directory. The caller removes it."""
    from concurrent.futures import ThreadPoolExecutor
    jobs = []
    with ThreadPoolExecutor(4) as ex:
        for n in needs:
            if n == "backend":
                jobs.append(("edpyt_backend", ex.submit(build_backend)))
            else:
                jobs.append(("edpyt", ex.submit(build_ext, "_" + n, extra)))
        built = [(pkg, j.result()) for pkg, j in jobs]
    os.makedirs(BUILD, exist_ok=True)
    ov = tempfile.mkdtemp(prefix="ov-", dir=BUILD)
    try:
        _copy_sources(ov)
        for pkg, d in built:
            for f in glob.glob(os.path.join(d, "*.so")):
                shutil.copy(f, os.path.join(ov, pkg))
    except BaseException:
        shutil.rmtree(ov, ignore_errors=True)
        raise
    return ov


if __name__ == "__main__":
    print(make(sys.argv[1:]))
