"""C15: the compiled continued fraction evaluates the continued fraction."""
import ctypes
from fractions import Fraction

import numpy as np

import edp
from vlib import Check

chk = Check("C15", needs=("psparse", "continued_fraction"), omp=8,
            rule="Coefficient lists of length 1 to several thousand (random, constant, zero weights, negative weights, widely "
                 "scaled, weights of tridiagonal matrices), arguments scalar and arrays of 1 to 50000 values in both half "
                 "planes, 1 to 16 OpenMP threads; all arguments guarded. Oracles: exact rational arithmetic for short lists "
                 "with the conditioning measured on perturbed coefficients, the resolvent element (z-T)^-1_00 from a dense "
                 "eigendecomposition, and a plain recursion in numpy. Non-trivial: three or more coefficients.",
            assumptions=["arguments stay off the poles by |Im z| >= 1e-14 or, on the real axis, by a distance from the poles"],
            require={"values": 1, "scalars": 1, "thread_counts": 1, "exact_values": 1, "near_poles": 1})


def threads(k):
    lib = ctypes.CDLL("libgomp.so.1")
    lib.omp_set_num_threads(k)


def recursion(z, a, b):
    r = np.zeros(np.shape(z), complex)
    for i in range(len(a) - 1, -1, -1):
        r = b[i] / (z - a[i] - r)
    return r


class Q(object):
    """Exact complex rational."""

    def __init__(self, x, y=Fraction(0)):
        self.x, self.y = x, y

    def sub(self, o):
        return Q(self.x - o.x, self.y - o.y)

    def rdiv(self, b):
        d = self.x * self.x + self.y * self.y
        return Q(b * self.x / d, -b * self.y / d)


def exact(z, a, b):
    r = Q(Fraction(0))
    zz = Q(Fraction(float(z.real)), Fraction(float(z.imag)))
    for i in range(len(a) - 1, -1, -1):
        r = zz.sub(Q(Fraction(float(a[i])))).sub(r).rdiv(Fraction(float(b[i])))
    return complex(float(r.x), float(r.y))


def coefficients(ctx, n):
    rs, r = ctx.np, ctx.rng
    kind = r.choice(["random", "random", "constant", "zeros", "negative", "scaled", "lanczos", "large"])
    a, b = rs.normal(size=n), rs.uniform(.1, 2, n)
    if kind == "constant":
        a[:], b[:] = rs.normal(), rs.uniform(.1, 4)
    elif kind == "zeros":
        b *= rs.rand(n) < .7
    elif kind == "negative":
        b *= rs.choice([-1., 1.], n)
    elif kind == "scaled":
        b *= 10. ** rs.uniform(-8, 3, n)
        a *= 10. ** rs.uniform(-6, 2, n)
    elif kind == "large":
        a += 1e4
        b *= 1e4
    return kind, a, b


def call(ctx, z, a, b):
    from edpyt._continued_fraction import continued_fraction
    f = edp.Frozen(a=a, b=b, z=z)
    out = continued_fraction(z, a, b)
    if isinstance(out, np.ndarray) and ctx.rng.random() < .3:
        # an answer is the caller's own
        keep = out.copy()
        other = continued_fraction(z, a, b)
        ctx.check(np.array_equal(other, keep, equal_nan=True) and np.array_equal(out, keep, equal_nan=True), "the same values when asked again")
        other[...] = 5.
        ctx.check(np.array_equal(out, keep, equal_nan=True), "separate arrays for separate answers")
    f.verify(ctx)
    ctx.count("values", np.size(z))
    return out


@chk.family("exact", quick=250, thorough=6000)
def exact_(ctx):
    """Short lists against exact rational arithmetic."""
    rs, r = ctx.np, ctx.rng
    n = r.choice([1, 1, 2, 3, 4, 5, 6, 8])
    kind, a, b = coefficients(ctx, n)
    m = r.choice([1, 2, 5])
    z = rs.uniform(-3, 3, m) + 1j * rs.choice([-1., 1.], m) * 10. ** rs.uniform(-4, 2, m)
    if r.random() < .3:
        # next to a pole of one of the levels
        z = a[rs.randint(0, n, m)] + 1j * rs.choice([-1., 1.], m) * 10. ** rs.uniform(-14, -4, m)
        if n > 1 and r.random() < .5:
            b = b * np.append(1., np.full(n - 1, 1e-12))
        ctx.count("near_poles", m)
    if kind == "large":
        z = z + 1e4 * r.choice([0, 1])
    ctx.note(a=a, b=b, z=z)
    got = np.asarray(call(ctx, z, a, b)).reshape(-1)
    ctx.eq(got.size, m, "one value per argument")
    for k in range(m):
        want = exact(z[k], a, b)
        pert = 0.
        for _ in range(4):
            e = 1e-13
            w = exact(z[k] * (1 + e * rs.choice([-1, 1])), a * (1 + e * rs.choice([-1, 1], n)), b * (1 + e * rs.choice([-1, 1], n)))
            pert = max(pert, abs(w - want))
        if k == 0:
            last = 100 * pert / max(abs(want), 1e-300)
        ctx.check(abs(got[k] - want) <= 1e-300 + 1e-12 * abs(want) + 3 * pert, "value of the continued fraction",
                  got=got[k], want=want, conditioning=pert, z=z[k])
        ctx.count("exact_values")
    # one scalar argument
    s = call(ctx, complex(z[0]), a, b)
    ctx.check(np.size(s) == 1, "a scalar argument gives one value", got=s)
    ctx.close(np.asarray(s).reshape(-1)[0], got[0], "scalar and array agree", atol=1e-300, rtol=max(1e-12, 1e-2 * min(1., last)))
    ctx.count("scalars")
    if n > 2:
        ctx.nontrivial(ctx.seed)


@chk.family("resolvent", quick=80, thorough=1500)
def resolvent(ctx):
    """b0 (z - T)^-1_00 of the tridiagonal matrix the coefficients belong to."""
    rs, r = ctx.np, ctx.rng
    n = r.choice([1, 2, 3, 10, 50, 120])
    a, o, b0 = rs.normal(size=n) * r.choice([1, 10]), rs.uniform(.05, 2, max(n - 1, 0)), rs.uniform(.01, 3)
    if r.random() < .2 and n > 3:
        o[r.randrange(n - 1)] = 0.
    w, u = np.linalg.eigh(np.diag(a) + np.diag(o, 1) + np.diag(o, -1))
    b = np.concatenate([[b0], o ** 2])
    m = r.choice([1, 7, 64])
    z = rs.uniform(w[0] - 1, w[-1] + 1, m) + 1j * rs.choice([-1., 1.], m) * 10. ** rs.uniform(-2, 1, m)
    if r.random() < .3:
        # real arguments outside the spectrum
        z = (w[-1] + rs.uniform(.1, 5, m)) * (1 + 0j)
    ctx.note(a=a, b=b, z=z)
    want = b0 * (u[0] ** 2 / (z[:, None] - w)).sum(1)
    got = np.asarray(call(ctx, z, a, b)).reshape(-1)
    ctx.close(got, want, "resolvent element", atol=1e-9, rtol=1e-8)
    if n > 2:
        ctx.nontrivial(ctx.seed)


@chk.family("long", quick=60, thorough=1500)
def long_(ctx):
    """Long lists and many arguments, any thread count; the order of the arguments is kept."""
    rs, r = ctx.np, ctx.rng
    n = r.choice([1, 2, 3, 100, 499, 500, 501, 3000])
    m = r.choice([1, 2, 3, 17, 1000, 4097]) if n > 1000 else r.choice([1, 3, 1000, 20000, 50000])
    kind, a, b = coefficients(ctx, n)
    b = np.abs(b)
    z = rs.uniform(-3, 3, m) + 1j * rs.choice([-1., 1.], m) * 10. ** rs.uniform(-1, 2, m)
    ctx.note(n=n, m=m, kind=kind)
    want = recursion(z, a, b)
    ref = None
    for t in r.sample([1, 2, 3, 4, 8, 16], 3):
        threads(t)
        got = np.asarray(call(ctx, z, a, b)).reshape(-1)
        ctx.close(got, want, "recursion, %d threads" % t, atol=1e-12, rtol=1e-9)
        if ref is not None:
            ctx.close(got, ref, "independent of the number of threads (%d)" % t, atol=1e-13, rtol=1e-10)
        ref = got
        ctx.count("thread_counts")
    p = rs.permutation(m)
    got = np.asarray(call(ctx, np.ascontiguousarray(z[p]), a, b)).reshape(-1)
    ctx.close(got, ref[p], "values follow the order of the arguments", atol=1e-13, rtol=1e-10)
    k = r.randrange(m)
    ctx.close(np.asarray(call(ctx, complex(z[k]), a, b)).reshape(-1)[0], ref[k], "every value is that of its own argument", atol=1e-13, rtol=1e-10)
    threads(8)
    if n > 2:
        ctx.nontrivial(ctx.seed)


@chk.family("wrapper", quick=60, thorough=1200)
def wrapper(ctx):
    """The Green's function kernel gf_lanczos.continued_fraction(a, b)(e, eta)."""
    from edpyt.gf_lanczos import continued_fraction as kernel
    rs, r = ctx.np, ctx.rng
    n = r.choice([1, 2, 5, 30])
    kind, a, b = coefficients(ctx, n)
    b = np.abs(b)
    fz = edp.Frozen(a=a, b=b)
    f = kernel(a, b)
    for _ in range(3):
        m = r.choice([1, 4, 33])
        e = rs.uniform(-3, 3, m)
        eta = r.choice([.05, 1., -.3]) if r.random() < .5 else rs.uniform(.05, 2, m)
        got = np.asarray(f(e, eta)).reshape(-1)
        ctx.eq(got.size, m, "one value per frequency")
        ctx.close(got, recursion(e + 1j * eta, a, b), "kernel value", atol=1e-12, rtol=1e-9)
        one = np.asarray(f(float(e[0]), .3)).reshape(-1)
        ctx.close(one, recursion(np.array([e[0] + .3j]), a, b), "kernel value of a scalar", atol=1e-12, rtol=1e-9)
        ctx.count("values", m)
        e += .5                                 # other frequencies in the array handed over before
        ctx.close(np.asarray(f(e, eta)).reshape(-1), recursion(e + 1j * eta, a, b), "frequencies changed in place", atol=1e-12, rtol=1e-9)
    fz.verify(ctx)
    if n > 2:
        ctx.nontrivial(ctx.seed)


@chk.family("odd-arguments", quick=30, thorough=300)
def odd(ctx):
    """Arguments of another type or layout either give the right values or are refused, never wrong values."""
    from edpyt._continued_fraction import continued_fraction
    rs, r = ctx.np, ctx.rng
    n = r.choice([1, 3, 8])
    kind, a, b = coefficients(ctx, n)
    b = np.abs(b)
    z = rs.uniform(-3, 3, 6) + 1j * rs.uniform(.2, 2, 6)
    want = recursion(z, a, b)
    big = np.zeros(12, complex)
    big[::2] = z
    A = np.zeros(2 * n)
    A[::2] = a
    ro = z.copy()
    ro.flags.writeable = False
    cases = [("strided z", (big[::2], a, b), want), ("list z", (list(z), a, b), want), ("strided a", (z, A[::2], b), want),
             ("read-only z", (ro, a, b), want), ("2-d z", (z.reshape(2, 3), a, b), want.reshape(2, 3)),
             ("complex64 z", (z.astype(np.complex64), a, b), recursion(z.astype(np.complex64).astype(complex), a, b)),
             ("float z", (np.array([9e3, -9e3]), a, b), recursion(np.array([9e3, -9e3]) + 0j, a, b)),
             ("int a", (z, np.arange(n), b), recursion(z, np.arange(n), b)),
             ("empty z", (z[:0], a, b), want[:0])]
    for name, args, w in cases:
        try:
            g = np.asarray(continued_fraction(*args))
        except (ValueError, TypeError):
            ctx.count("refused:" + name)
            continue
        ctx.check(g.size == w.size, name + ": one value per argument", got=g.shape)
        ctx.close(g.reshape(-1), w.reshape(-1), name, atol=1e-10, rtol=1e-5 if "64" in name else 1e-9)
        ctx.count("accepted:" + name)
    ctx.nontrivial(ctx.seed)


chk.main()
