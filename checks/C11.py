"""C11: the tridiagonal eigensolver returns the eigenpairs it was asked for."""
import numpy as np

import edp
from vlib import Check

chk = Check("C11", needs=("psparse",), omp=1,
            rule="Tridiagonal matrices: random, clustered, graded over 16 decades, decoupled into blocks by exact or tiny "
                 "zeros, Wilkinson, constant, Toeplitz, one and two rows, repeated blocks; all index ranges. Judged by "
                 "residual, orthonormality and a dense solver. Non-trivial: an off-diagonal entry is non-zero or the "
                 "diagonal is not sorted.",
            assumptions=["numpy's dense symmetric eigenvalues are correct"])

KINDS = ["normal", "positive", "toeplitz", "constant", "wilkinson", "graded", "graded_rev", "blocks", "tinyblocks",
         "repeat", "zero", "diag", "clustered", "lanczos", "huge", "small"]


def tri(ctx):
    r, rs = ctx.rng, ctx.np
    kind = r.choice(KINDS)
    n = r.choice([1, 2, 2, 3, 4, 5, 8, 13, 21, 40])
    a, b = rs.normal(size=n), rs.normal(size=n - 1)
    if kind == "positive":
        b = np.abs(b) + .1
    elif kind == "toeplitz":
        a, b = np.full(n, a[0]), np.full(n - 1, rs.normal())
    elif kind == "constant":
        a, b = np.full(n, 2.), np.zeros(n - 1)
    elif kind == "wilkinson":
        a, b = np.abs(np.arange(n) - (n - 1) / 2.), np.ones(n - 1)
    elif kind == "graded":
        a, b = a * 10. ** -np.linspace(0, 12, n), b * 10. ** -np.linspace(0, 12, n)[1:]
    elif kind == "graded_rev":
        a, b = a * 10. ** np.linspace(-12, 0, n), b * 10. ** np.linspace(-12, 0, n)[:-1]
    elif kind == "blocks":
        b[rs.rand(n - 1) < .4] = 0.
    elif kind == "tinyblocks":
        b[rs.rand(n - 1) < .4] *= 1e-18
    elif kind == "repeat" and n > 3:
        k = n // 2
        a[k:2 * k] = a[:k]
        b[k - 1] = r.choice([0., 1e-20])
        b[k:2 * k - 1] = b[:k - 1]
    elif kind == "zero":
        a[:], b[:] = 0., 0.
    elif kind == "diag":
        b[:] = 0.
    elif kind == "clustered":
        a, b = 1. + 1e-9 * a, 1e-9 * b
    elif kind == "lanczos" and n > 1:
        m = rs.normal(size=(n, n))
        m = m + m.T
        from scipy.linalg import hessenberg
        h = hessenberg(m)
        a, b = np.diag(h).copy(), np.diag(h, 1).copy()
    elif kind == "huge":
        a, b = a * 1e60, b * 1e60
    elif kind == "small":
        a, b = a * 1e-60, b * 1e-60
    return np.ascontiguousarray(a), np.ascontiguousarray(b), kind


def layouts(ctx, a, b):
    """The recursion hands over slices of longer arrays."""
    k = ctx.rng.randrange(3)
    if k == 0:
        return a, b, "plain"
    if k == 1:
        big = np.concatenate([ctx.np.normal(size=1), b, ctx.np.normal(size=3)])
        return np.concatenate([a, [7.]])[:len(a)], big[1:1 + len(b)], "slices"
    a2, b2 = a.copy(), b.copy()
    a2.flags.writeable = b2.flags.writeable = False
    return a2, b2, "readonly"


@chk.family("pairs", quick=4000, thorough=60000)
def pairs(ctx):
    from edpyt.tridiag import eigh_tridiagonal
    r = ctx.rng
    a0, b0, kind = tri(ctx)
    n = len(a0)
    a, b, lay = layouts(ctx, a0, b0)
    T = np.diag(a0) + np.diag(b0, 1) + np.diag(b0, -1)
    nrm = float(np.abs(T).sum(1).max()) or 1.
    w = np.linalg.eigvalsh(T / nrm) * nrm
    g = edp.Frozen(a=a, b=b)
    if r.random() < .5:
        lo = r.randrange(n)
        hi = r.randrange(lo, n)
        args, kw, want = (2, (lo, hi)), {}, w[lo:hi + 1]
    elif r.random() < .3:
        args, kw, want = (2,), {}, w[:1]
        lo, hi = 0, 0
    else:
        args, kw, want = ((0,) if r.random() < .5 else ()), {}, w
        lo, hi = None, None
    ctx.note(kind=kind, n=n, a=a0, b=b0, range=(lo, hi), layout=lay)
    e, v = eigh_tridiagonal(a, b, *args, **kw)
    g.verify(ctx)
    ctx.eq(e.shape, want.shape, "number of eigenvalues")
    ctx.eq(v.shape, (n, len(want)), "shape of the eigenvectors")
    ctx.check(bool(np.all(np.diff(e) >= -1e-13 * nrm)), "ascending order", e=e)
    ctx.close(e / nrm, want / nrm, "eigenvalues", atol=2e-13 * (n + 5), rtol=0)
    res = (T / nrm).dot(v) - v * (e / nrm)
    ctx.close(res, np.zeros_like(res), "eigenvalue equation", atol=1e-11 * n + 1e-11, rtol=0)
    ctx.close(v.T.dot(v), np.eye(len(want)), "orthonormality", atol=1e-8, rtol=0)
    e2 = eigh_tridiagonal(a, b, *args, eigvals_only=True)
    g.verify(ctx)
    ctx.eq(np.shape(e2), want.shape, "number of eigenvalues when only values are requested")
    ctx.close(e2 / nrm, want / nrm, "eigenvalues when only values are requested", atol=2e-13 * (n + 5), rtol=0)
    ctx.count("eigenpairs", len(want))
    ctx.count("kind:" + kind)
    if b0.any() or np.any(np.diff(a0) < 0):
        ctx.nontrivial(kind, n, lo, hi, ctx.seed)
    ctx.sample(kind=kind, n=n, range=(lo, hi), a=a0, b=b0)


@chk.family("ground", quick=1500, thorough=15000)
def ground(ctx):
    """The lowest value / pair shortcuts used by the recursion and the low-temperature code."""
    from edpyt.tridiag import egs_tridiag, eigh_tridiagonal, gs_tridiag
    a0, b0, kind = tri(ctx)
    n = len(a0)
    a, b, lay = layouts(ctx, a0, b0)
    ctx.note(kind=kind, n=n, a=a0, b=b0, layout=lay)
    T = np.diag(a0) + np.diag(b0, 1) + np.diag(b0, -1)
    nrm = float(np.abs(T).sum(1).max()) or 1.
    w = np.linalg.eigvalsh(T / nrm)
    g = edp.Frozen(a=a, b=b)
    ctx.close(egs_tridiag(a, b) / nrm, w[0], "lowest eigenvalue", atol=2e-13 * (n + 5), rtol=0)
    e, v = gs_tridiag(a, b)
    g.verify(ctx)
    ctx.eq(np.shape(v), (n, 1), "shape of the ground state")
    ctx.close(e / nrm, w[:1], "lowest eigenvalue", atol=2e-13 * (n + 5), rtol=0)
    ctx.close((T / nrm).dot(v), v * (e / nrm), "ground state solves the eigenvalue equation", atol=1e-11 * n + 1e-11, rtol=0)
    ctx.close(float(np.linalg.norm(v)), 1., "ground state is normalised", atol=1e-10)
    ctx.raises(AssertionError, lambda: eigh_tridiagonal(a, b, select=1), "unknown selection")
    ctx.nontrivial(kind, n, ctx.seed)


chk.main()
