"""Build one of the extensions that setup.py declares, in the current directory.

usage: build_ext1.py NAME [CFLAGS [LDFLAGS]]    NAME: last component, e.g. _psparse
Runs the repository's own setup.py with its own flags; the only change is that the list of
extensions is filtered, so the two can be built side by side, and that extra compiler
flags (sanitizers) may be appended.
"""
import shlex
import sys

import setuptools

name = sys.argv[1]
cflags = shlex.split(sys.argv[2]) if len(sys.argv) > 2 else []
ldflags = shlex.split(sys.argv[3]) if len(sys.argv) > 3 else []
_setup = setuptools.setup


def setup(**kw):
    exts = [e for e in kw.get("ext_modules", []) if e.name.split(".")[-1] == name]
    if not exts:
        sys.exit("build_ext1: setup.py declares no extension %s" % name)
    for e in exts:
        e.extra_compile_args = list(e.extra_compile_args or []) + cflags
        e.extra_link_args = list(e.extra_link_args or []) + ldflags
    kw["ext_modules"] = exts
    return _setup(**kw)


setuptools.setup = setup
sys.argv = ["setup.py", "-q", "build_ext", "--inplace", "--force", "--build-temp", "build_" + name]
src = open("setup.py", encoding="utf-8").read()
exec(compile(src, "setup.py", "exec"), {"__name__": "__main__", "__file__": "setup.py"})
