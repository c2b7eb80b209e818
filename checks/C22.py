"""C22: the bath fit - model, gradient, descent, honest result, determinism."""
import ctypes as ct
import os

import numpy as np

from vlib import Check

chk = Check("C22", needs=("psparse", "continued_fraction", "backend"),
            rule="Random baths of 1-9 levels, Matsubara grids, targets (semicircle, few poles, constant, noise, exactly "
                 "represented) and starts. Model, cost and gradient of both implementations against the formula and "
                 "differences of it; fits (Python, cffi, ctypes) monitored for descent, honest minimum, fixed points, "
                 "repeatability within a history of other fits, untouched input, any memory layout; the compiled line "
                 "minimiser on functions with a known minimum. Non-trivial: distinct fit whose start was not stationary.",
            assumptions=["the compiled model and line minimiser are reached through the library's exported symbols; if a rebuilt "
                         "library does not export them they are judged through complete fits only"],
            require={"python_model": 1, "python_fits": 1, "compiled_fits": 1, "fixed_points": 1, "repeated": 1, "strided": 1,
                     "unconverged_workload": 1})


def grid(nmats, beta):
    return 1j * (2 * np.arange(nmats) + 1) * np.pi / beta


def model(p, z):
    n = p.size // 2
    return ((p[n:] ** 2)[None, :] / (z[:, None] - p[:n][None, :])).sum(1)


def cost(p, z, f):
    return float((np.abs(f - model(p, z)) ** 2).mean())


def gradient(p, z, f):
    n = p.size // 2
    e, v = p[:n], p[n:]
    d = np.concatenate([v ** 2 / (z[:, None] - e) ** 2, 2 * v / (z[:, None] - e)], 1)
    F = f - model(p, z)
    return -2. * (d.real.T.dot(F.real) + d.imag.T.dot(F.imag)) / z.size


def problem(ctx, big):
    r, rs = ctx.rng, ctx.np
    nb = r.choice([1, 1, 2, 2, 3, 3, 4, 5] + ([6, 7, 8, 9] if big else []))
    nm = r.choice([1, 2, 3, r.randint(1, 40), r.randint(10, 60)] + ([300] if big else []))
    if r.random() < {0: 0., 1: 0., 2: .05}[int(big)]:
        nm = r.choice([1024, 1025, 2000, 3000, 4097, 5000, 8200])
    beta = r.choice([1., 10., 70., 10 ** r.uniform(-1, 2.5)])
    z = grid(nm, beta)
    kind = r.choice(["semi", "poles", "exact", "const", "noise", "zero", "atomic"])
    if kind == "semi":
        f = 2 * (z - np.sqrt(z ** 2 - 1))
        f = np.where(f.imag * z.imag > 0, 2 * (z + np.sqrt(z ** 2 - 1)), f)
    elif kind == "poles":
        f = model(rs.uniform(-2, 2, 2 * (nb + 2)), z)
    elif kind == "exact":
        f = model(rs.uniform(-2, 2, 2 * nb), z)
    elif kind == "const":
        f = np.full(nm, r.uniform(-1, 1) + 1j * r.choice([0., -.3]))
    elif kind == "zero":
        f = np.zeros(nm, complex)
    elif kind == "atomic":
        f = nb * .25 / z
    else:
        f = (rs.normal(size=nm) + 1j * rs.normal(size=nm)) * 10 ** r.uniform(-3, 2)
    x = r.choice(["init", "init", "random", "random", "symmetric", "decoupled"])
    if x == "init":
        p = init(nb)
    elif x == "symmetric":
        e, v = np.sort(rs.uniform(0, 2, nb // 2)), rs.uniform(.1, 1, nb // 2)
        mid = [0.] if nb & 1 else []
        p = np.array(list(-e[::-1]) + mid + list(e) + list(v[::-1]) + ([.4] if nb & 1 else []) + list(v))
    else:
        p = np.concatenate([rs.uniform(-3, 3, nb), rs.uniform(.05, 1.5, nb) * (x == "random")])
    ctx.note(nbath=nb, nmats=nm, beta=beta, target=kind, start=x, p=p, f=f)
    return nb, nm, beta, z, f.astype(complex), p.astype(float), kind


def init(nb):
    from edpyt.fit_cg import get_initial_bath
    return get_initial_bath(nbath=nb)


def judge_model(ctx, p, z, f, delta, ddelta, chi2, dchi2, what):
    n = p.size // 2
    e, v = p[:n], p[n:]
    want = model(p, z)
    sc = ((v ** 2)[None, :] / np.abs(z[:, None] - e)).sum(1)
    if delta is not None:
        ctx.check(np.shape(delta) == want.shape and bool(np.all(np.abs(delta - want) <= 1e-12 * sc + 1e-300)), what + ": model", got=delta, want=want)
    if ddelta is not None:
        d = np.concatenate([v ** 2 / (z[:, None] - e) ** 2, 2 * v / (z[:, None] - e)], 1)
        ctx.check(np.shape(ddelta) == d.shape and bool(np.all(np.abs(ddelta - d) <= 1e-11 * np.abs(d) + 1e-300)), what + ": derivative of the model", got=ddelta, want=d)
    c, cs = cost(p, z, f), float(((np.abs(f) + sc) ** 2).mean())
    ctx.check(abs(chi2 - c) <= 1e-12 * cs + 1e-300, what + ": cost", got=chi2, want=c)
    g = gradient(p, z, f)
    gs = np.concatenate([(v ** 2 / np.abs(z[:, None] - e) ** 2 * (np.abs(f) + sc)[:, None]).mean(0),
                         (np.abs(2 * v / (z[:, None] - e)) * (np.abs(f) + sc)[:, None]).mean(0)]) * 2
    ctx.check(np.shape(dchi2) == g.shape and bool(np.all(np.abs(dchi2 - g) <= 1e-11 * gs + 1e-300)), what + ": gradient", got=dchi2, want=g)
    # the gradient is the derivative of the cost (central differences of the oracle's own cost in extended precision)
    if ctx.rng.random() < .2:
        k = ctx.rng.randrange(p.size)
        h = 1e-4 * min(1., np.abs(z).min())
        q = [p.astype(np.longdouble).copy() for _ in range(4)]
        for qq, s in zip(q, (1, -1, 2, -2)):
            qq[k] += s * h
        zz, ff = z.astype(np.clongdouble), f.astype(np.clongdouble)
        a, b, c2, d2 = [(np.abs(ff - model(qq, zz)) ** 2).mean() for qq in q]
        num = float((8 * (a - b) - (c2 - d2)) / (12 * h))
        ctx.check(abs(num - dchi2[k]) <= 1e-5 * gs[k] + 1e-7 * np.abs(g).max() + 1e-300 + 1e-8 * cs / h * 1e-4, what + ": gradient is the derivative of the cost", got=dchi2[k], want=num, k=k)
        ctx.count("differences")


@chk.family("python_model", quick=150, thorough=6000)
def python_model(ctx):
    from edpyt.fit_cg import DDelta, Chi2, Delta, dChi2
    nb, nm, beta, z, f, p, kind = problem(ctx, 2)
    f0 = f.copy()
    d, dd = Delta(z), DDelta(z, p.size)
    chi, dchi = Chi2(d, f), dChi2(d, dd, f)
    for _ in range(2):                       # the closures keep state: use them at several points
        judge_model(ctx, p, z, f, np.array(d(p)), np.array(dd(p)), chi(p), np.array(dchi(p)), "python")
        p = p + ctx.np.normal(size=p.size)
    ctx.same(f, f0, "the target is not modified")
    ctx.count("python_model")
    ctx.nontrivial(ctx.seed)


def libfit():
    return ct.CDLL(os.path.join(os.environ["EDPYT_OVERLAY"], "edpyt_backend", "libfit.so"))


class Compiled(object):
    """The library's model routines on memory prepared here."""

    def __init__(self, nb, z, f):
        lib = libfit()
        self.ok = False
        try:
            names = [ct.c_int.in_dll(lib, "nbath"), ct.c_int.in_dll(lib, "nmats")] + \
                    [ct.c_void_p.in_dll(lib, s) for s in ("vals_true", "delta", "z", "ddelta")]
            self.fn = [getattr(lib, s) for s in ("eval_delta", "eval_ddelta", "eval_chi2", "eval_dchi2")]
        except (AttributeError, ValueError):
            return
        self.ok = True
        self.z, self.f = np.ascontiguousarray(z), np.ascontiguousarray(f)
        self.delta = np.full(z.size, np.nan, complex)
        self.ddelta = np.full((z.size, 2 * nb), np.nan, complex)
        self.rows = (ct.c_void_p * z.size)(*[self.ddelta[i].ctypes.data for i in range(z.size)])
        for var, val in zip(names, (nb, z.size, self.f.ctypes.data, self.delta.ctypes.data, self.z.ctypes.data, ct.addressof(self.rows))):
            var.value = val
        for g, n in zip(self.fn, (1, 1, 1, 2)):
            g.argtypes = [ct.c_void_p] * n
            g.restype = None
        self.fn[2].restype = ct.c_double

    def __call__(self, p):
        a = p.ctypes.data
        out = np.full(p.size, np.nan)
        self.fn[0](a)
        self.fn[1](a)
        d, dd = self.delta.copy(), self.ddelta.copy()
        c = self.fn[2](a)
        self.fn[3](a, out.ctypes.data)
        return d, dd, c, out


@chk.family("compiled_model", quick=300, thorough=12000)
def compiled_model(ctx):
    nb, nm, beta, z, f, p, kind = problem(ctx, 2)
    c = Compiled(nb, z, f)
    if not c.ok:
        ctx.count("symbols_missing")
        return
    for _ in range(3):
        p0 = p.copy()
        judge_model(ctx, p, z, f, *(c(p) + ("compiled",)))
        ctx.same(p, p0, "the model routines do not modify the parameters")
        p = np.ascontiguousarray(p + ctx.np.normal(size=p.size))
    ctx.count("compiled_model")
    ctx.nontrivial(ctx.seed)


def judge_fit(ctx, x, p, z, f, what):
    """x: result, p: start."""
    ctx.check(x.shape == p.shape and bool(np.isfinite(x).all()), what + ": finite parameters", x=x)
    a, b = cost(p, z, f), cost(x, z, f)
    ctx.check(b <= a * (1 + 1e-9) + 1e-28 * (1 + np.abs(f).max() ** 2), what + ": never worse than the start", start=a, got=b, x=x)
    return a, b


def stationary(p, z, f):
    """Is the gradient at p too small for a line search to make use of it?"""
    g = gradient(p, z, f)
    return np.abs(g).max() < 1e-6 * (1 + cost(p, z, f))


def layout(ctx, a):
    """The same values in another memory layout; the owner is returned too."""
    k = ctx.rng.choice(["plain", "plain", "strided", "column", "reversed"])
    if k == "plain":
        return np.array(a), k
    if k == "strided":
        b = np.full(3 * a.size, 7., a.dtype)
        v = b[1::3]
    elif k == "column":
        b = np.full((a.size, 3), 7., a.dtype)
        v = b[:, 2]
    else:
        b = np.full(a.size, 7., a.dtype)
        v = b[::-1]
    v[:] = a
    ctx.count("strided")
    return v, k


@chk.family("python_fits", quick=60, thorough=1200)
def python_fits(ctx):
    from edpyt.fit_cg import fit_hybrid
    nb, nm, beta, z, f, p, kind = problem(ctx, False)
    runs = []
    for k in range(2):
        x, lay = layout(ctx, p) if k else (p.copy(), "plain")
        t = f.copy()
        fit_hybrid(x, nm, t, beta)
        ctx.same(t, f, "the target is not modified")
        runs.append(np.array(x))
        q = ctx.np.normal(size=2 * ctx.rng.randint(1, 3))     # another fit in between
        fit_hybrid(q, 3, np.ones(3, complex), 5.)
    a, b = judge_fit(ctx, runs[0], p, z, f, "python")
    ctx.close(runs[1], runs[0], "python: same call, same result", atol=1e-10, rtol=1e-10)
    ctx.count("repeated")
    ctx.count("python_fits")
    if not stationary(p, z, f):
        ctx.check(b < a, "python: a start that is not stationary is improved", start=a, got=b)
        ctx.nontrivial(ctx.seed)
    if nb <= 3:
        # a function the bath represents: fixed point
        q = ctx.np.uniform(-2, 2, 2 * nb)
        x = q.copy()
        fit_hybrid(x, nm, model(q, z), beta)
        ctx.close(x, q, "python: an exactly represented function is a fixed point", atol=1e-7, rtol=1e-7)
        ctx.count("fixed_points")


def cffi_fit(x, nm, f, beta):
    from edpyt.fit_cffi import fit_hybrid
    return fit_hybrid(x, nm, f, beta)


@chk.family("compiled_fits", quick=160, thorough=6000)
def compiled_fits(ctx):
    r, rs = ctx.rng, ctx.np
    nb, nm, beta, z, f, p, kind = problem(ctx, True)
    runs = []
    for k in range(2):
        x, _ = layout(ctx, p) if k else (p.copy(), "")
        own, keep = x.base, None if x.base is None else np.array(x.base)
        t, lay = layout(ctx, f) if k else (f.copy(), "plain")
        it, fret = cffi_fit(x, nm, t, beta)
        ctx.same(np.array(t), f, "the target is not modified")
        if own is not None:
            mask = np.full(own.shape, True)
            mask[own == keep] = False                          # what changed ...
            ctx.check(int(mask.sum()) <= p.size, "compiled: only the parameters are written")
        runs.append((np.array(x), it, fret))
        for _ in range(r.randint(0, 2)):                       # other fits in between, of other sizes
            m = r.randint(1, 4)
            q = rs.normal(size=2 * m)
            cffi_fit(q, r.randint(1, 9), rs.normal(size=9) + 0j, 5.)
    x, it, fret = runs[0]
    a, b = judge_fit(ctx, x, p, z, f, "compiled")
    sc = float(((np.abs(f) + ((x[nb:] ** 2)[None, :] / np.abs(z[:, None] - x[:nb])).sum(1)) ** 2).mean())
    ctx.check(abs(fret - b) <= 1e-11 * sc + 1e-300, "compiled: the minimum reported is the cost at the parameters returned", reported=fret, cost=b)
    ctx.check(it >= 1, "compiled: number of iterations", got=it)
    ctx.close(runs[1][0], x, "compiled: same call, same result", atol=1e-12, rtol=1e-12)
    ctx.eq(runs[1][1], it, "compiled: same call, same number of iterations")
    ctx.count("repeated")
    ctx.count("compiled_fits")
    if not stationary(p, z, f):
        ctx.check(b < a, "compiled: a start that is not stationary is improved", start=a, got=b)
        ctx.nontrivial(ctx.seed)
    # real or single precision targets hold the same numbers
    if kind in ("const", "zero") and np.abs(f.imag).max() == 0:
        y = p.copy()
        cffi_fit(y, nm, f.real.copy(), beta)
        ctx.close(y, x, "compiled: a real target", atol=1e-12, rtol=1e-12)
    q = rs.uniform(-2, 2, 2 * nb)
    y = q.copy()
    it, fret = cffi_fit(y, nm, model(q, z), beta)
    ctx.close(y, q, "compiled: an exactly represented function is a fixed point", atol=1e-6, rtol=1e-6)
    ctx.check(fret <= 1e-20 * (1 + np.abs(model(q, z)).max() ** 2), "compiled: minimum of an exactly represented function", got=fret)
    ctx.count("fixed_points")


@chk.family("wrap", quick=60, thorough=1500)
def wrap(ctx):
    from edpyt_backend.fit_wrap import fit_hybrid
    r, rs = ctx.rng, ctx.np
    nb, nm, beta, z, f, p, kind = problem(ctx, True)
    runs = []
    for k in range(3):
        t, _ = layout(ctx, f) if k else (f.copy(), "plain")
        runs.append(np.array(fit_hybrid(nb, nm, t, beta)))
        ctx.same(np.array(t), f, "the target is not modified")
        junk = [np.full(2 * nb, v) for v in (np.nan, 1e300, 3.)]   # fill freed memory of that size
        del junk
        if r.random() < .6:
            fit_hybrid(r.randint(1, 4), 5, rs.normal(size=5) + 1j, 3.)
    p0 = init(nb)
    judge_fit(ctx, runs[0], p0, z, f, "ctypes")
    ctx.close(runs[1], runs[0], "ctypes: same call, same result", atol=1e-12, rtol=1e-12)
    ctx.close(runs[2], runs[0], "ctypes: same call, same result", atol=1e-12, rtol=1e-12)
    y = p0.copy()
    cffi_fit(y, nm, f, beta)
    ctx.close(runs[0], y, "both bindings give the same fit from the initial bath", atol=1e-10, rtol=1e-10)
    ctx.count("wrap")
    ctx.nontrivial(ctx.seed)


@chk.family("unconverged", quick=16, thorough=300)
def unconverged(ctx):
    """Fits that need very many iterations come back to their caller (the process survives)."""
    r, rs = ctx.rng, ctx.np
    k = ctx.idx % 4
    if k == 0:
        nb, nm, beta = 9, 4, 20.126 * r.choice([1., 1., r.uniform(.9, 1.1)])
        z = grid(nm, beta)
        f, p = nb * .25 / z, init(nb)
    else:
        nb, nm, beta = r.randint(2, 9), r.randint(1, 60), 10 ** r.uniform(-1, -.2)
        z = grid(nm, beta)
        f, p = np.full(nm, r.uniform(.02, .3) + 0j), np.concatenate([rs.uniform(-3, 3, nb), rs.uniform(.05, 1, nb)])
    ctx.note(nbath=nb, nmats=nm, beta=beta, f=f, p=p)
    x = p.copy()
    it, fret = cffi_fit(x, nm, f, beta)
    a, b = judge_fit(ctx, x, p, z, f, "compiled, slow")
    sc = float(((np.abs(f) + ((x[nb:] ** 2)[None, :] / np.abs(z[:, None] - x[:nb])).sum(1)) ** 2).mean())
    ctx.check(abs(fret - b) <= 1e-10 * sc + 1e-300, "compiled, slow: the minimum reported is the cost at the parameters returned", reported=fret, cost=b)
    ctx.count("unconverged_workload")
    ctx.count("over_500_iterations", it > 500)
    ctx.count("at_the_limit", it >= 2000)


@chk.family("line", quick=60, thorough=1500)
def line(ctx):
    r = ctx.rng
    lib = libfit()
    F = ct.CFUNCTYPE(ct.c_double, ct.c_double)
    try:
        mnbrak, dbrent = lib.mnbrak, lib.dbrent
    except AttributeError:
        ctx.count("symbols_missing")
        return
    D = ct.POINTER(ct.c_double)
    mnbrak.restype, mnbrak.argtypes = None, [D] * 6 + [F]
    dbrent.restype, dbrent.argtypes = ct.c_double, [ct.c_double] * 3 + [F, F, ct.c_double, D]
    for _ in range(8):
        m, w, q, s = r.uniform(-8, 8), 10 ** r.uniform(-2, 2), r.choice([0., r.random()]), r.choice([0., r.random()])
        seen = []

        def f(t):
            u = t - m
            y = w * u * u + q * u ** 4 + s * (np.exp(min(u, 500.)) - u)
            seen.append((t, y))
            return float(y)

        def g(t):
            u = t - m
            return float(2 * w * u + 4 * q * u ** 3 + s * (np.exp(min(u, 500.)) - 1))
        cf, cg = F(f), F(g)
        a, b, c, fa, fb, fc, x = [ct.c_double() for _ in range(7)]
        a.value, b.value = r.choice([(0., 1.), (0., 1.), (r.uniform(-3, 3), r.uniform(4, 6))])
        ctx.note(minimum=m, width=w, quartic=q, skew=s, start=(a.value, b.value))
        mnbrak(*([ct.byref(v) for v in (a, b, c, fa, fb, fc)] + [cf]))
        A, B, C = a.value, b.value, c.value
        ctx.check(min(A, C) <= B <= max(A, C) and fb.value <= min(fa.value, fc.value), "the minimum is bracketed",
                  bracket=(A, B, C), values=(fa.value, fb.value, fc.value))
        ctx.check(min(A, C) - 1e-12 <= m <= max(A, C) + 1e-12, "the bracket contains the minimum", bracket=(A, B, C))
        for p, v in ((A, fa), (B, fb), (C, fc)):
            ctx.close(v.value, f(p), "values reported for the bracket", atol=1e-300, rtol=1e-12)
        tol = r.choice([2e-4, 2e-4, 1e-6])
        del seen[:]
        v = dbrent(A, B, C, cf, cg, tol, ct.byref(x))
        ctx.check(all(min(A, C) <= t <= max(A, C) for t, _ in seen), "points tried stay inside the bracket", bracket=(A, B, C), seen=seen)
        ctx.check(abs(x.value - m) <= 4 * (tol * abs(x.value) + 1e-10) + 1e-7, "the minimum is found", got=x.value, tol=tol, tried=len(seen))
        ctx.close(v, f(x.value), "value reported at the minimum", atol=1e-300, rtol=1e-12)
        ctx.check(v <= min(y for _, y in seen[:-1]), "the best point tried is returned", got=v, seen=seen)
        ctx.count("line_searches")
    ctx.nontrivial(ctx.seed)


chk.main()
