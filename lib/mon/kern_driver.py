"""Runs the compiled kernels on seeded cases inside an instrumented process.

usage: kern_driver.py MODE SEED COUNT     (cwd and PYTHONPATH: an instrumented overlay)
MODE mon: the process is preloaded with ompmon.so; arrays sit between poisoned zones, every
case runs under several thread counts and orders.  MODE asan: preloaded with libasan; the
arrays are exact allocations.  One line of JSON per case, then a line "done".
"""
import ctypes
import json
import random
import sys

import numpy as np

mode, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
import vlib  # noqa: E402
vlib.bootstrap()
import scipy.sparse as sp  # noqa: E402
from edpyt import _psparse  # noqa: E402
from edpyt._continued_fraction import continued_fraction  # noqa: E402

mon = None
if mode == "mon":
    mon = ctypes.CDLL(None)
    mon.mon_get.restype = ctypes.c_long
    mon.mon_poison.argtypes = [ctypes.c_size_t] * 2
    mon.mon_config.argtypes = [ctypes.c_int, ctypes.c_ulong]
NAMES = ["accesses", "regions", "races", "oob", "dropped", "unsupported", "logical_threads", "multithreaded",
         "race_addr", "race_a", "race_b", "race_write", "oob_addr", "oob_write", "barriers", "locks"]


def addr(a):
    return a.__array_interface__["data"][0]


class Arena(object):
    """Arrays surrounded by poisoned zones (mon) or exact allocations (asan)."""

    def __init__(self):
        self.keep = []

    def put(self, name, a):
        pad = 4096 // a.itemsize
        if mode != "mon":
            b = np.empty(len(a), a.dtype)
            b[:] = a
            return b
        big = np.zeros(len(a) + 2 * pad, a.dtype)
        v = big[pad:pad + len(a)]
        v[:] = a
        self.keep.append((name, big, v, pad))
        return v

    def arm(self):
        for name, big, v, pad in self.keep:
            lo, n = addr(big), big.itemsize
            mon.mon_poison(lo, lo + pad * n)
            mon.mon_poison(lo + (pad + len(v)) * n, lo + (2 * pad + len(v)) * n)

    def where(self, p):
        for name, big, v, pad in self.keep:
            lo = addr(big)
            if lo <= p < lo + big.nbytes:
                return "%s[%d]" % (name, (p - lo) // big.itemsize - pad)
        return hex(p)


def run(arena, r, call, res):
    """Executes call(); returns the monitor's verdicts over several thread orders."""
    if not mon:
        call()
        return {}, None
    tot, bad = {}, None
    for T in [1, r.choice([2, 3, 4]), r.choice([2, 5, 8]), r.choice([16, 33, 64])]:
        mon.mon_reset()
        arena.arm()
        mon.mon_config(T, r.randrange(1 << 30))
        call()
        v = dict((n, mon.mon_get(i)) for i, n in enumerate(NAMES))
        for n in ("accesses", "regions", "multithreaded", "logical_threads", "dropped", "unsupported", "barriers", "locks"):
            tot[n] = tot.get(n, 0) + v[n]
        if v["oob"] and not bad:
            bad = "%s outside the arrays: %s (%d threads)" % ("write" if v["oob_write"] else "read",
                                                            arena.where(v["oob_addr"]), T)
        if v["races"] and not bad:
            bad = "data race between threads %d and %d of %d on %s" % (v["race_a"], v["race_b"], T, arena.where(v["race_addr"]))
    return tot, bad


def matrix(r, rs, m, n):
    kind = r.choice(["random", "random", "empty", "emptyrows", "full", "first", "last", "diag"])
    D = rs.normal(size=(m, n))
    if kind == "random":
        D *= rs.rand(m, n) < .3
    elif kind == "empty":
        D *= 0
    elif kind == "emptyrows":
        D[rs.rand(m) < .6] = 0
    elif kind == "first":
        D[1:] = 0
    elif kind == "last":
        D[:-1] = 0
        D[:, :-1] = 0
    elif kind == "diag":
        D *= np.eye(m, n)
    return sp.csr_matrix(D), D, kind


for k in range(count):
    r = random.Random(seed * 1000003 + k)
    rs = np.random.RandomState(r.randrange(1 << 31))
    arena = Arena()
    fn = ["UPmultiply", "DWmultiply", "Multiply", "continued_fraction"][k % 4]
    if fn == "continued_fraction":
        n, m = r.choice([1, 2, 3, 17, 60]), r.choice([1, 1, 2, 3, 7, 50, 200])
        a, b = arena.put("a", rs.normal(size=n)), arena.put("b", rs.rand(n) + .1)
        z = arena.put("z", rs.normal(size=m) + 1j * (rs.rand(m) + .1))
        kind = "scalar" if m == 1 and r.random() < .5 else "array"
        zz = complex(z[0]) if kind == "scalar" else z
        out = []
        tot, bad = run(arena, r, lambda: out.append(continued_fraction(zz, a, b)), None)
        w = np.zeros(m, complex)
        for i in range(n - 1, -1, -1):
            w = b[i] / (z - a[i] - w)
        err = max(float(np.max(np.abs(np.atleast_1d(o) - w))) for o in out)
        tol = 1e-9 * float(np.max(np.abs(w)))
        shape = [m, n]
    else:
        m = r.choice([1, 1, 2, 3, 5, 9, 17, 40])
        n = r.choice([m, 1, 7]) if fn == "Multiply" else m
        other = 1 if fn == "Multiply" else r.choice([1, 2, 3, 8, 21])
        X, D, kind = matrix(r, rs, m, n)
        full = {"UPmultiply": lambda: np.kron(np.eye(other), D), "DWmultiply": lambda: np.kron(D, np.eye(other)),
                "Multiply": lambda: D}[fn]()
        for at in ("data", "indices", "indptr"):
            setattr(X, at, arena.put(at, getattr(X, at)))
        W = arena.put("W", rs.normal(size=full.shape[1]))
        r0 = rs.normal(size=full.shape[0])
        res = arena.put("result", r0)
        outs = []

        def call():
            res[:] = r0
            getattr(_psparse, fn)(X, W, res)
            outs.append(res.copy())
        tot, bad = run(arena, r, call, res)
        w = r0 + full.dot(W)
        err = max(float(np.max(np.abs(o - w))) for o in outs)
        tol = 1e-11 * (1. + float(np.max(np.abs(full).dot(np.abs(W)))))
        shape = [m, n, other]
    if not bad and not err <= tol:
        bad = "wrong result (error %.2e)" % err
    print(json.dumps({"k": k, "fn": fn, "shape": shape, "kind": kind, "bad": bad, "mon": tot}))
    sys.stdout.flush()
print("done")
