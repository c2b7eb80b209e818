"""C23: the compiled bath-fit library is free of memory errors, undefined arithmetic and leaks."""
import json
import os
import re
import subprocess

import vlib
from vlib import Check, Inconclusive

chk = Check("C23", workers=6,
            rule="The library's sources compiled with a driver that calls its initial-bath, model, gradient, line-search and "
                 "minimiser routines and fits of changing size on heap blocks of exactly the documented size: under "
                 "AddressSanitizer+UBSan (gcc and clang), under MemorySanitizer (outputs must be fully initialised), with "
                 "counted allocations (nothing may stay live), with failing allocations, and twice with different fill of fresh "
                 "memory (bitwise equal results). Thorough adds valgrind memcheck. Non-trivial: distinct build and random sequence.",
            assumptions=["libm is not instrumented"],
            require={"fits": 1, "failed_allocations": 1,
                     "poison_pairs": 1, "asan_runs": 1, "msan_runs": 1})

WRAP = ["-Wl," + ",".join("--wrap=" + s for s in ("malloc", "free", "calloc", "realloc", "exit"))]
UB = "undefined,float-divide-by-zero,float-cast-overflow"
BUILDS = {
    "plain": ["gcc", "-O3", "-funroll-loops", "-g"],
    "asan": ["gcc", "-O1", "-g", "-fsanitize=address," + UB, "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "clang": ["clang", "-O1", "-g", "-fsanitize=address," + UB, "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "msan": ["clang", "-O1", "-g", "-fsanitize=memory", "-fsanitize-memory-track-origins", "-fno-omit-frame-pointer"],
}
LEVELS = [[], ["-DNO_LINES"], ["-DNO_MODEL"], ["-DNO_LINES", "-DNO_MODEL"], ["-DNO_LINES", "-DNO_MODEL", "-DNO_INIT"]]


def prepare(ov, tier, seed):
    from concurrent.futures import ThreadPoolExecutor
    src = os.path.join(ov, "edpyt_backend")
    cs = sorted(os.path.join(src, f) for f in os.listdir(src) if re.match(r"[a-z].*\.c$", f))
    drv = os.path.join(vlib.LIB, "mon", "fit_driver.c")

    def one(name, without):
        out = os.path.join(ov, "fit_" + name)
        cmd = BUILDS[name] + ["-w", "-I" + src] + without + cs + [drv] + WRAP + ["-lm", "-o", out]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        if p.returncode:
            raise Inconclusive("building the %s driver: %s" % (name, p.stdout.decode(errors="replace")[-1500:]))
        return out
    # inner routines that are gone or look different are left to the complete fits
    for k, without in enumerate(LEVELS):
        try:
            one("plain", without)
            break
        except Inconclusive:
            if k == len(LEVELS) - 1:
                raise
    with ThreadPoolExecutor(4) as ex:
        out = dict(zip(BUILDS, ex.map(lambda b: one(b, without), BUILDS)))
    out["without"] = [w[5:].lower() for w in without]
    return out


chk.prepare = prepare


def run(ctx, build, seed, n, poison=None, pre=()):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=77:detect_stack_use_after_return=1",
               UBSAN_OPTIONS="exitcode=77:print_stacktrace=0", MSAN_OPTIONS="exitcode=77:allocator_may_return_null=1")
    cmd = list(pre) + [ctx.prep[build], str(seed), str(n)] + ([str(poison)] if poison is not None else [])
    try:
        p = subprocess.run(cmd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=240)
    except subprocess.TimeoutExpired:
        raise Inconclusive("the driver timed out")
    out, err = p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    rows = [json.loads(l) for l in out.splitlines() if l.startswith("{")]
    for row in rows:
        if "fail" in row:
            ctx.fail(build + ": " + row["fail"], case=row["case"], cmd=cmd[-3:], err=err[-2500:])
    rep = [l for l in err.splitlines() if re.search(r"ERROR: |runtime error|WARNING: MemorySanitizer|==\d+== (Invalid|Conditional|Use of|Source)", l)]
    if p.returncode or rep:
        ctx.fail("%s: %s" % (build, (rep or ["the driver ended with status %d" % p.returncode])[0][:200]), cmd=cmd[-3:], err=err[-4000:])
    if not rows:
        raise Inconclusive("the driver reported nothing")
    r = rows[-1]
    for k in ctx.prep["without"]:
        ctx.count("left_to_complete_fits:" + k)
    ctx.count("assertions")
    for k in ("fits", "model_evaluations", "initial_baths", "line_searches", "failed_allocations", "allocations"):
        ctx.count(k, r[k])
    return r


def case(ctx, build, n):
    seed = ctx.seed % (1 << 30)
    ctx.note(build=build, seed=seed, cases=n)
    r = run(ctx, build, seed, n)
    ctx.sample(build=build, **r)
    ctx.nontrivial(build, ctx.seed)


@chk.family("asan", quick=12, thorough=300)
def asan(ctx):
    case(ctx, ("asan", "clang")[ctx.idx % 2], 150)
    ctx.count("asan_runs")


@chk.family("msan", quick=8, thorough=200)
def msan(ctx):
    case(ctx, "msan", 120)
    ctx.count("msan_runs")


@chk.family("poison", quick=8, thorough=200)
def poison(ctx):
    seed = ctx.seed % (1 << 30)
    ctx.note(seed=seed)
    out = [run(ctx, "plain", seed, 150, p) for p in (255, 17, 0)]
    ctx.eq(len({r["digest"] for r in out}), 1, "results do not depend on what fresh memory holds (runs compared)", runs=out)
    ctx.count("poison_pairs", 2)
    ctx.nontrivial("poison", ctx.seed)


@chk.family("valgrind", quick=1, thorough=8)
def valgrind(ctx):
    seed = ctx.seed % (1 << 30)
    run(ctx, "plain", seed, 20 if ctx.thorough else 6, None, ("valgrind", "-q", "--error-exitcode=77", "--leak-check=no", "--trace-children=no"))
    ctx.count("valgrind_runs")


chk.main()
