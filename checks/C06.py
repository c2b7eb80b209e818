"""C06: the native kernels are memory safe and do not depend on the thread schedule."""
import ctypes
import json
import os
import subprocess

import numpy as np

import vlib
from vlib import Check, Inconclusive

chk = Check("C06", needs=("psparse", "continued_fraction"), omp=8,
            rule="(monitored) the extensions, compiled with every load and store reported to a monitor that runs the "
                 "threads of each parallel region one by one in shuffled orders: two threads on one location with a write "
                 "and no lock or barrier between is a race, an access to the poisoned zones around the arrays is out of "
                 "bounds; (asan) the extensions under AddressSanitizer and UBSan on exact allocations; (threads) results of "
                 "the ordinary build for 1..16 threads against one thread. Non-trivial: distinct kernel, shape and matrix kind.",
            assumptions=["gcc reports the accesses of the code it compiles (-fsanitize=thread instrumentation)"])

MON = os.path.join(vlib.LIB, "mon")
ASAN = "-fsanitize=address,undefined -fno-sanitize=alignment -fno-omit-frame-pointer -g -O1"


def prepare(ov, tier, seed):
    import shutil
    from concurrent.futures import ThreadPoolExecutor

    import overlay
    ex = ThreadPoolExecutor(8)
    jobs = {(v, n): ex.submit(overlay.build_ext, n, fl) for n in ("_psparse", "_continued_fraction")
            for v, fl in (("mon", ("-fsanitize=thread -g", "")), ("asan", (ASAN, "-fsanitize=address,undefined")))}
    so = os.path.join(ov, "ompmon.so")
    p = subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", so, os.path.join(MON, "ompmon.c")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise Inconclusive("building the monitor: " + p.stdout.decode())
    out = {"ompmon": so}
    for v in ("mon", "asan"):
        d = os.path.join(ov, "inst_" + v)
        os.makedirs(os.path.join(d, "edpyt"))
        for f in os.listdir(os.path.join(ov, "edpyt")):
            if f.endswith(".py"):
                shutil.copy(os.path.join(ov, "edpyt", f), os.path.join(d, "edpyt"))
        for n in ("_psparse", "_continued_fraction"):
            c = jobs[v, n].result()
            for f in os.listdir(c):
                shutil.copy(os.path.join(c, f), os.path.join(d, "edpyt"))
        out[v] = d
    lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE).stdout.decode().strip()
    out["libasan"] = os.path.realpath(lib)
    return out


chk.prepare = prepare


def drive(ctx, mode, count, threads):
    d = ctx.prep[mode]
    env = vlib.worker_env(d, threads)
    env["LD_PRELOAD"] = ctx.prep["ompmon" if mode == "mon" else "libasan"]
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:halt_on_error=1:allocator_may_return_null=1"
    env["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=0:exitcode=77"
    cmd = [vlib.PY, "-B", os.path.join(MON, "kern_driver.py"), mode, str(ctx.seed % (1 << 31)), str(count)]
    p = subprocess.Popen(cmd, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try:
        out, err = p.communicate(timeout=240)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise Inconclusive("instrumented process timed out")
    out, err = out.decode(errors="replace"), err.decode(errors="replace")
    rows = []
    for line in out.splitlines():
        if line.startswith("{"):
            rows.append(json.loads(line))
    done = out.rstrip().endswith("done")
    tag = {"mon": "monitored", "asan": "asan"}[mode]
    for row in rows:
        ctx.count(tag + "_calls:" + row["fn"])
        for k, v in row["mon"].items():
            ctx.count("monitor:" + k, v)
        ctx.nontrivial(tag, row["fn"], row["shape"], row["kind"])
        if row["bad"]:
            ctx.fail("%s %s (%s matrix/argument): %s" % (row["fn"], row["shape"], row["kind"], row["bad"]), "kernel", **row)
    ctx.sample(mode=mode, threads=threads, first=rows[:2])
    if done:
        return
    if p.returncode == 77 or "AddressSanitizer" in err or "runtime error" in err:
        k = err.find("ERROR: AddressSanitizer")
        k = k if k >= 0 else max(err.find("runtime error") - 200, 0)
        ctx.fail("sanitizer report in case %d: %s" % (len(rows), err[k:k + 300].replace("\n", " | ")), "sanitizer", report=err[:4000])
    if p.returncode < 0 and rows:
        ctx.fail("the kernel took the process down (signal %d) in case %d" % (-p.returncode, len(rows)), "crash", log=err[-2000:])
    if mode == "mon" and ("undefined symbol" in err or "symbol lookup error" in err):
        ctx.count("monitor:unavailable")
        return
    raise Inconclusive("instrumented run failed (%s): %s" % (p.returncode, err[-1500:]))


@chk.family("monitored", quick=8, thorough=64)
def monitored(ctx):
    drive(ctx, "mon", 120 if not ctx.thorough else 400, 4)


@chk.family("asan", quick=8, thorough=64)
def asan(ctx):
    drive(ctx, "asan", 200 if not ctx.thorough else 600, ctx.rng.choice([1, 2, 3, 4, 7, 16]))


_gomp = None


def set_threads(t):
    global _gomp
    _gomp = _gomp or ctypes.CDLL("libgomp.so.1")
    _gomp.omp_set_num_threads(t)


@chk.family("threads", quick=160, thorough=4000)
def threads(ctx):
    """Results for many thread counts against the single-threaded result."""
    import scipy.sparse as sp
    from edpyt import _psparse
    from edpyt._continued_fraction import continued_fraction
    r, rs = ctx.rng, ctx.np
    fn = r.choice(["UPmultiply", "DWmultiply", "Multiply", "continued_fraction"])
    ctx.note(kernel=fn)
    if fn == "continued_fraction":
        n, m = r.choice([1, 5, 40]), r.choice([1, 3, 64, 1000, 5000])
        z, a, b = rs.normal(size=m) + 1j * (rs.rand(m) + .05), rs.normal(size=n), rs.rand(n) + .1
        call = lambda: continued_fraction(z, a, b)
        shape = (n, m)
    else:
        m = r.choice([1, 2, 3, 16, 70, 252])
        other = 1 if fn == "Multiply" else r.choice([1, 2, 15, 70, 252])
        X = sp.random(m, m, density=r.choice([.02, .1, .5]), format="csr", random_state=rs)
        X = sp.csr_matrix(X)
        W, r0 = rs.normal(size=m * other), rs.normal(size=m * other)
        shape = (m, other, X.nnz)

        def call():
            res = r0.copy()
            getattr(_psparse, fn)(X, W, res)
            return res
    set_threads(1)
    one = call()
    scale = np.abs(one).max() + 1.
    for T in [2, 3, r.choice([4, 5, 7]), 8, r.choice([11, 16])]:
        set_threads(T)
        for rep in range(3):
            ctx.close(call(), one, "%s with %d threads equals the result with one" % (fn, T), atol=1e-11 * scale, rtol=1e-10,
                      mech="schedule", threads=T, shape=shape)
            ctx.count("threaded_calls")
    set_threads(8)
    ctx.nontrivial(fn, shape)
    ctx.sample(kernel=fn, shape=shape)


@chk.family("bigindex", quick=2, thorough=6)
def bigindex(ctx):
    """Vectors longer than 2^31 elements (untouched pages take no memory)."""
    import mmap

    import scipy.sparse as sp
    from edpyt import _psparse
    r = ctx.rng
    big, small = 1 << 22, r.randint(540, 620)
    fn = ["UPmultiply", "DWmultiply"][ctx.idx % 2]
    ctx.note(kernel=fn, blocks=small, block=big)
    try:
        maps = [mmap.mmap(-1, big * small * 8, flags=mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS | 0x4000) for _ in range(2)]
    except (OSError, ValueError):
        ctx.count("bigindex_unavailable")
        return
    W, res = [np.frombuffer(m, dtype=np.float64) for m in maps]
    if fn == "UPmultiply":
        # two entries: (i, j), (big - 1, l)
        i, j, l = r.randrange(1, big - 2), r.randrange(big), r.randrange(big)
        indptr = np.zeros(big + 1, np.int32)
        indptr[i + 1:] = 1
        indptr[big] = 2
        X = sp.csr_matrix((np.array([2., 3.]), np.array([j, l], dtype=np.int32), indptr), shape=(big, big))
        blocks = [0, r.randrange(small), small - 1]
        for b in blocks:
            W[b * big + j] = 1.5 + b
            W[b * big + l] = 1.5 + b
        want = {}
        for b in blocks:
            want[b * big + i] = 2 * (1.5 + b)
            want[b * big + big - 1] = 3 * (1.5 + b)
    else:
        indptr = np.zeros(small + 1, np.int32)
        indptr[small] = 1
        src, s = r.choice([small - 1, small - 2]), r.randrange(big)
        X = sp.csr_matrix((np.array([2.]), np.array([src], dtype=np.int32), indptr), shape=(small, small))
        W[src * big + s] = 1.5
        want = {(small - 1) * big + s: 3.}
    getattr(_psparse, fn)(X, W, res)
    for k, v in sorted(want.items()):
        ctx.eq(float(res[k]), v, "element %d of %d" % (k, len(res)))
    del W, res
    ctx.count("bigindex_calls")
    ctx.nontrivial(fn, small)


chk.main()
