"""C24: the initial bath is fully defined, symmetric, inside the band and the same in both implementations."""
import ctypes as ct
import os

import numpy as np

from vlib import Check, Inconclusive

chk = Check("C24", needs=("psparse", "continued_fraction", "backend"),
            rule="Baths of 1-400 levels, bandwidths over many orders of magnitude, arrays with previous content (NaN, huge, "
                 "random) and any stride, in Python; the compiled initialiser on poisoned memory between guard zones. "
                 "Monitored: every entry set, order, band, symmetry, couplings, in-place result, agreement. Non-trivial: "
                 "distinct bath size and bandwidth.",
            assumptions=["the compiled initialiser is reached through the library's symbols nbath and init_bath; if a rebuilt "
                         "library does not export them only the Python initialiser is judged"],
            require={"python_baths": 1, "odd": 1, "even": 1, "three_levels": 1, "narrow": 1, "in_place": 1})


def judge(ctx, p, nbath, bw, what):
    e, v = p[:nbath], p[nbath:]
    ctx.check(p.shape == (2 * nbath,) and bool(np.isfinite(p).all()), what + ": every parameter is set", p=p)
    ctx.check(bool((np.diff(e) > 0).all()), what + ": energies ascending", ek=e)
    ctx.check(bool((np.abs(e) <= bw * (1 + 1e-12)).all()), what + ": energies inside the band", ek=e, bandwidth=bw)
    if nbath >= 2:
        ctx.close(e, -e[::-1], what + ": symmetric about zero", atol=1e-13 * bw, rtol=0)
        ctx.close([e[0], e[-1]], [-bw, bw], what + ": band edges included", atol=1e-13 * bw, rtol=0)
    ctx.check(bool((v > 0).all() and np.ptp(v) <= 1e-14 * v[0]), what + ": couplings equal and positive", vk=v)
    ctx.count("odd" if nbath & 1 else "even")
    ctx.count("three_levels", nbath == 3)


def previous(ctx, n):
    r = ctx.rng
    k = r.choice(["nan", "huge", "normal", "inf"])
    return ctx.np.normal(size=n) if k == "normal" else np.full(n, {"nan": np.nan, "huge": 1e300, "inf": -np.inf}[k])


def size(ctx):
    r = ctx.rng
    return r.choice([r.randint(1, 6), r.randint(1, 12), r.randint(1, 80), r.randint(60, 400)])


@chk.family("python", quick=600, thorough=20000)
def python(ctx):
    from edpyt.fit_cg import get_initial_bath
    r = ctx.rng
    nbath = size(ctx)
    bw = r.choice([2., 2., 10 ** r.uniform(-6, 4), r.uniform(.01, .3), float(r.randint(1, 5))])
    ctx.note(nbath=nbath, bandwidth=bw)
    kw = {} if bw == 2. else {"bandwidth": bw}
    if ctx.rng.random() < .5:
        p = get_initial_bath(nbath=nbath, **kw)
    else:
        base = previous(ctx, 6 * nbath)
        keep = base.copy()
        sl = r.choice([slice(0, 2 * nbath), slice(nbath, 3 * nbath), slice(1, 1 + 4 * nbath, 2), slice(4 * nbath - 1, 2 * nbath - 1, -1)])
        p = base[sl]
        out = get_initial_bath(p=p, **kw)
        ctx.check(np.shares_memory(out, base), "a supplied array is filled in place")
        ctx.same(np.asarray(out), p, "the array supplied is what is returned")
        mask = np.ones(6 * nbath, bool)
        mask[sl] = False
        ctx.check(bool(np.array_equal(base[mask], keep[mask], equal_nan=True)), "memory beside the array is left alone")
        ctx.count("in_place")
    p = np.array(p)
    judge(ctx, p, nbath, bw, "python")
    ctx.close(get_initial_bath(nbath=nbath, **kw), p, "independent of the previous content", atol=0, rtol=0)
    ctx.count("narrow", bw < .3)
    ctx.count("python_baths")
    ctx.nontrivial(nbath, bw)


def library():
    lib = ct.CDLL(os.path.join(os.environ["EDPYT_OVERLAY"], "edpyt_backend", "libfit.so"))
    try:
        return lib.init_bath, ct.c_int.in_dll(lib, "nbath")
    except (AttributeError, ValueError):
        return None, None


@chk.family("compiled", quick=200, thorough=4000)
def compiled(ctx):
    from edpyt.fit_cg import get_initial_bath
    init, nb = library()
    if init is None:
        ctx.count("symbols_missing")
        return
    init.restype, init.argtypes = None, [ct.c_void_p]
    nbath = size(ctx) if ctx.idx >= 40 else ctx.idx + 1
    ctx.note(nbath=nbath)
    out = []
    for _ in range(2):
        buf = previous(ctx, 2 * nbath + 16)
        keep = buf.copy()
        nb.value = nbath
        init(buf[8:].ctypes.data)
        ctx.check(bool(np.array_equal(buf[:8], keep[:8], equal_nan=True) and np.array_equal(buf[-8:], keep[-8:], equal_nan=True)),
                  "compiled: memory beside the array is left alone")
        out.append(buf[8:-8].copy())
    judge(ctx, out[0], nbath, 2., "compiled")
    ctx.close(out[1], out[0], "compiled: independent of the previous content", atol=0, rtol=0)
    ctx.close(out[0], get_initial_bath(nbath=nbath), "both initialisers agree", atol=1e-13, rtol=1e-13)
    ctx.count("compiled_baths")
    ctx.nontrivial("compiled", nbath)


chk.main()
