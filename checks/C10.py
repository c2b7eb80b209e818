"""C10: the Lanczos recursion reproduces the operator it is given."""
import numpy as np

import edp
import ref
from vlib import Check

chk = Check("C10", needs=("psparse",), omp=2, require={"deflated_blocks": 1},
            rule="Random symmetric operators with a known spectral decomposition (generic, degenerate, shifted, scaled; start "
                 "vectors generic, confined to an invariant subspace, exact eigenvectors, zero) and Hamiltonians of the "
                 "library; blocks of start vectors, some of whose directions end exactly on the way. A monitor on the operator handed to the recursion counts and checks its arguments (unit vectors). "
                 "Oracle: the spectral measure of the start vector. Non-trivial: at least two visible levels.",
            assumptions=["numba-compiled functions behave as their Python source (numba is not installed)",
                         "moments are compared up to order 8; the whole measure only when the Krylov space is exhausted"])


class Op(object):
    """Symmetric operator with known decomposition; observes every application."""

    def __init__(self, ctx, A):
        self.ctx, self.A, self.calls, self.worst = ctx, A, 0, 0.

    def __call__(self, v):
        self.calls += 1
        nv = float(np.linalg.norm(v))
        self.worst = max(self.worst, abs(nv - 1.))
        return self.A.dot(v)

    def verify(self):
        self.ctx.check(self.calls > 0, "the operator was applied")
        self.ctx.check(self.worst < 1e-10, "the operator is applied to normalised vectors", worst=self.worst)
        self.ctx.count("operator_applications", self.calls)


def problem(ctx, dims, kinds=("generic", "generic", "degenerate", "shifted", "scaled")):
    r, rs = ctx.rng, ctx.np
    d = r.choice(dims)
    kind = r.choice(kinds)
    w = np.sort(rs.normal(size=d))
    if kind == "degenerate":
        w = np.round(w, 1)
    elif kind == "shifted":
        w = w + r.choice([-20., 20.])
    elif kind == "scaled":
        w = w * r.choice([.01, 30.])
    q, _ = np.linalg.qr(rs.normal(size=(d, d)))
    A = (q * w).dot(q.T)
    A = (A + A.T) / 2
    c = rs.normal(size=d)
    start = r.choice(["full", "full", "sub", "eig", "two"])
    if start == "sub":
        m = rs.rand(d) < .5
        m[rs.randint(d)] = True
        c = c * m
    elif start in ("eig", "two"):
        m = np.zeros(d)
        m[rs.permutation(d)[:1 if start == "eig" else 2]] = 1
        c = c * m
    c *= r.choice([1., 1., 1e-6, 1e-11, 1e4])
    ctx.note(d=d, kind=kind, start=start, w=w, c=c)
    return d, A, w, q, c, kind, start


def measure(w, c):
    """Distinct visible levels and their weights (of the normalised vector)."""
    p = c ** 2 / (c ** 2).sum()
    lv, wt = [], []
    for x, y in sorted(zip(w, p)):
        if lv and x - lv[-1] < 1e-9:
            wt[-1] += y
        else:
            lv.append(x)
            wt.append(y)
    lv, wt = np.array(lv), np.array(wt)
    return lv[wt > 1e-12], wt[wt > 1e-12]


def tri(a, b):
    return np.diag(a) + np.diag(b[1:], 1) + np.diag(b[1:], -1)


@chk.family("recursion", quick=900, thorough=12000)
def recursion(ctx):
    from edpyt.lanczos import build_sl_tridiag
    from edpyt.tridiag import egs_tridiag
    d, A, w, q, c, kind, start = problem(ctx, [1, 2, 3, 5, 8, 13, 20, 50, 100] + ([200] if ctx.thorough else []))
    v0 = q.dot(c)
    op = Op(ctx, A)
    nrm = float(np.linalg.norm(v0))
    a, b = build_sl_tridiag(op, v0.copy())
    op.verify()
    ctx.eq(a.shape, b.shape, "one coefficient of each kind per step")
    ctx.check(len(a) >= 1, "at least one step")
    scale = float(np.abs(w).max()) + 1e-30
    ctx.close(b[0], nrm, "first off-diagonal coefficient is the norm of the start vector", atol=0, rtol=1e-12)
    ctx.check(bool(np.all(np.isfinite(a)) and np.all(np.isfinite(b))), "finite coefficients", a=a, b=b)
    T = tri(a, b)
    th, U = np.linalg.eigh(T)
    wt = U[0] ** 2
    lv, p = measure(w, c)
    n = min(len(a), len(lv))
    for k in range(1, min(2 * n - 1, 8) + 1):
        ctx.close((wt * (th / scale) ** k).sum(), (p * (lv / scale) ** k).sum(), "moment %d of the spectral measure" % k,
                  atol=1e-9, rtol=0)
    ctx.check(len(a) <= max(len(lv), 1) or b[1:].size == 0 or len(a) <= 500, "bounded number of steps")
    # lowest visible level
    vis = lv[p > 1e-6]
    seen = th[wt > 1e-9]
    ctx.close(seen[0], vis[0] if p[0] > 1e-6 else lv[0], "lowest visible eigenvalue",
              atol=(1e-6 if p[0] > 1e-6 else 10. * scale) * max(1., scale), rtol=0)
    if start == "full" and lv.size == np.unique(np.round(w, 9)).size and p[0] > 1e-6:
        ctx.close(egs_tridiag(a, b[1:]), w[0], "lowest eigenvalue of a generic start vector", atol=1e-6 * max(1., scale))
    if len(lv) <= 8 and len(lv) < 10:
        # Krylov space exhausted before the first convergence test: the whole measure
        z = np.array([.3 + .7j, -1.2 + 2j]) * scale
        g = (p / (z[:, None] - lv)).sum(1)
        ctx.close((wt / (z[:, None] - th)).sum(1) * scale, g * scale, "resolvent of the start vector", atol=1e-7)
        ctx.count("measures_compared")
    ctx.count("coefficients", len(a))
    if len(lv) > 1:
        ctx.nontrivial(d, kind, start, ctx.seed)
    ctx.sample(d=d, kind=kind, start=start, steps=len(a))


@chk.family("graded", quick=120, thorough=2000)
def graded(ctx):
    """Couplings small beside the levels: the coefficients themselves, one by one."""
    from edpyt.lanczos import build_sl_tridiag
    r, rs = ctx.rng, ctx.np
    m = r.randint(2, 8)
    lv = rs.normal(size=m)
    cp = rs.uniform(.3, 2., m - 1)
    if m > 2 and r.random() < .3:
        cp[r.randrange(m - 1)] *= 10. ** rs.uniform(-5, -1)
    big = r.random() < .7
    if big:
        lv[0] = r.choice([-1., 1.]) * 10. ** rs.uniform(1, 4)
        cp[0] = 10. ** rs.uniform(-4, 0)
    nrm = 10. ** rs.uniform(-3, 3)
    unit = 1.
    if r.random() < .4:                                   # units of the operator and of the start vector
        unit = max(10. ** rs.uniform(-8, 4), 1e-12 / cp.min())
        nrm = 10. ** rs.uniform(-8, 8)
        lv, cp = lv * unit, cp * unit
        ctx.count("other_units")
    d = m + r.choice([0, 0, 3, 20])
    A = np.zeros((d, d))
    A[:m, :m] = np.diag(lv) + np.diag(cp, 1) + np.diag(cp, -1)
    B = rs.normal(size=(d - m, d - m))
    A[m:, m:] = (B + B.T) * unit                          # out of reach of the start vector
    p = rs.permutation(d)
    A = A[np.ix_(p, p)]
    v = np.zeros(d)
    v[list(p).index(0)] = nrm
    ctx.note(levels=lv, couplings=cp, norm=nrm, d=d)
    op = Op(ctx, A)
    a, b = build_sl_tridiag(op, v)
    op.verify()
    ctx.check(a.size >= m, "the recursion goes on through a small coupling", steps=a.size, levels=m)
    # rounding relative to the largest level grows by that level over the coupling in every step
    err = 1e-16 * np.cumprod(np.append(1., (unit + np.abs(lv).max()) / cp))
    keep = err[:a.size] < 1e-8
    k = int(keep.sum())
    if a.size >= k:
        ctx.close(a[:k], lv[:k], "levels", atol=1e-5 * unit, rtol=1e-9)
        ctx.close(np.abs(b[1:k]), cp[:k - 1], "couplings", atol=0, rtol=1e-4)
        ctx.close(b[0], nrm, "norm", atol=0, rtol=1e-12)
    ctx.count("graded", k)
    if k > 1:
        ctx.nontrivial(m, d, ctx.seed)


@chk.family("far", quick=80, thorough=1500)
def far(ctx):
    """A spectrum far from zero: the same answer, moved."""
    from edpyt.lanczos import build_sl_tridiag
    from edpyt.tridiag import egs_tridiag
    r, rs = ctx.rng, ctx.np
    d = r.choice([60, 100, 200])
    w = np.sort(rs.normal(size=d))
    if r.random() < .5:
        w = np.sort(rs.uniform(-1, 1, d))                 # crowded edge: slow convergence
    q, _ = np.linalg.qr(rs.normal(size=(d, d)))
    s = r.choice([-1, 1]) * 10. ** rs.uniform(1.5, 4)
    A = (q * w).dot(q.T)
    A = (A + A.T) / 2
    c = rs.normal(size=d)
    ctx.note(d=d, shift=s, w=w, c=c)
    if c[0] ** 2 / c.dot(c) < 1e-5:
        return
    low = []
    for x in (0., s):
        op = Op(ctx, A + x * np.eye(d))
        a, b = build_sl_tridiag(op, q.dot(c))
        op.verify()
        low.append(egs_tridiag(a, b[1:]) - x)
    ctx.close(low[0], w[0], "lowest eigenvalue", atol=1e-6)
    ctx.close(low[1], w[0], "lowest eigenvalue of a spectrum far from zero", atol=1e-6)
    ctx.count("far_spectra")
    ctx.nontrivial(d, ctx.seed)


@chk.family("steps", quick=400, thorough=4000)
def steps(ctx):
    """One step at a time: orthonormal vectors, three-term recurrence."""
    from edpyt.lanczos import sl_step
    d, A, w, q, c, kind, start = problem(ctx, [2, 3, 5, 8, 13, 30], ("generic", "shifted"))
    op = Op(ctx, A)
    step = sl_step(op)
    v, l = q.dot(c), np.zeros(d)
    want = v.copy()
    lv, p = measure(w, c)
    V = []
    for k in range(min(len(lv), 6)):
        a, b, l, v = step(v, l)
        ctx.close(b, np.linalg.norm(want), "norm of the incoming vector", atol=1e-12, rtol=1e-10)
        ctx.close(l, want / b, "normalised vector", atol=1e-10)
        ctx.close(a, l.dot(A.dot(l)), "diagonal coefficient", atol=1e-10 * (1 + abs(w).max()))
        prev = V[-1] if V else np.zeros(d)
        want = A.dot(l) - a * l - b * prev
        ctx.close(v, want, "next vector of the recurrence", atol=1e-9 * (1 + abs(w).max()))
        V.append(l.copy())
        # later vectors are aliased by the recursion: hand it copies
        want = v.copy()
    op.verify()
    if len(V) > 1 and p.min() > 1e-4:
        ctx.close(np.array(V).dot(np.array(V).T), np.eye(len(V)), "orthonormal Lanczos vectors", atol=1e-5)
    if len(lv) > 1:
        ctx.nontrivial(d, kind, start, ctx.seed)


@chk.family("options", quick=200, thorough=2000)
def options(ctx):
    """Step limit, thresholds."""
    from edpyt.lanczos import build_sl_tridiag
    d, A, w, q, c, kind, start = problem(ctx, [5, 20, 60], ("generic",))
    maxn, ND = ctx.rng.choice([2, 3, 7, 15]), ctx.rng.choice([1, 2, 10])
    ctx.note(maxn=maxn, ND=ND)
    v0 = q.dot(c)
    a, b = build_sl_tridiag(A.dot, v0.copy(), maxn=maxn, ND=ND)
    ctx.check(1 <= len(a) <= maxn, "step limit", steps=len(a))
    a2, b2 = build_sl_tridiag(A.dot, v0.copy(), maxn=300)
    n = min(len(a), len(a2), len(measure(w, c)[0]), 4)
    ctx.close(a[:n], a2[:n], "coefficients do not depend on the step limit", atol=1e-9)
    ctx.close(b[:n], b2[:n], "coefficients do not depend on the step limit", atol=1e-9)
    ctx.nontrivial(d, maxn, ND, ctx.seed)


@chk.family("zero", quick=60, thorough=300)
def zero(ctx):
    from edpyt.lanczos import ZeroNormInitialVector, build_sl_tridiag
    d = ctx.rng.randint(1, 20)
    A = ref.rand_H(ctx.np, d, "dense")
    v = np.zeros(d) if ctx.rng.random() < .7 else np.full(d, -0.)
    ctx.note(d=d)
    with np.errstate(all="ignore"):
        ctx.raises(ZeroNormInitialVector, lambda: build_sl_tridiag(A.dot, v), "zero start vector")
    ctx.nontrivial(d)


@chk.family("second_pass", quick=500, thorough=6000)
def second_pass(ctx):
    from edpyt.lanczos import build_sl_tridiag, sl_solve
    r = ctx.rng
    d, A, w, q, c, kind, start = problem(ctx, [2, 3, 5, 8, 20, 40, 80])
    v0 = q.dot(c)
    a, b = build_sl_tridiag(A.dot, v0.copy())
    lv, p = measure(w, c)
    th, U = np.linalg.eigh(tri(a, b))
    scale = max(1., float(np.abs(w).max()))
    small = len(a) <= len(lv) and len(a) <= 8
    sel = r.choice(["ground", "full", "values"])
    ctx.note(select=sel)
    op = Op(ctx, A)
    if sel == "values":
        e = sl_solve(op, a, b, eigvals_only=True)
        ctx.close(np.sort(e), th, "Ritz values", atol=1e-10 * scale)
        ctx.check(op.calls == 0, "values alone need no second pass")
        ctx.raises(AssertionError, lambda: sl_solve(op, a, b), "eigenvectors need the start vector")
        return
    if sel == "ground":
        e, x = sl_solve(op, a, b, v0.copy(), select=2)
        ctx.eq((e.shape, x.shape), ((1,), (d, 1)), "shape of the ground state")
        ctx.close(e, th[:1], "lowest Ritz value", atol=1e-10 * scale)
    else:
        e, x = sl_solve(op, a, b, v0.copy())
        ctx.eq((e.shape, x.shape), ((len(a),), (d, len(a))), "shape of the Ritz vectors")
        ctx.close(e, th, "Ritz values", atol=1e-10 * scale)
    op.verify()
    # a converged Ritz value: small last component of its tridiagonal eigenvector, one copy, visible
    for k in range(len(e)):
        dist = np.abs(lv - e[k])
        if U[0, k] ** 2 < 1e-6 or np.abs(np.delete(th, k) - e[k]).min(initial=np.inf) < 1e-3 * scale:
            continue
        if len(a) > len(lv) and len(a) > 8:
            # beyond exhaustion rounding rules; judge the residual of the well-weighted ones
            continue
        nx = np.linalg.norm(x[:, k])
        if small and p.min() > 1e-3:
            ctx.close(nx, 1., "Ritz vectors are normalised", atol=1e-6)
        if dist.min() < 1e-9 * scale and nx > .1:
            res = np.linalg.norm(A.dot(x[:, k]) - e[k] * x[:, k]) / nx
            ctx.check(res < 2e-3 * scale, "converged Ritz vectors solve the eigenvalue equation", residual=res, value=e[k])
            ctx.close(nx, 1., "converged Ritz vectors are normalised", atol=1e-3)
            ctx.count("converged_pairs")
    ctx.count("second_passes")
    if len(lv) > 1:
        ctx.nontrivial(d, kind, start, sel, ctx.seed)


@chk.family("hamiltonian", quick=60, thorough=700)
def hamiltonian(ctx):
    """The library's own sectors, full pipeline: lowest state of the sector."""
    from edpyt.build_mb_ham import build_mb_ham
    from edpyt.espace import build_empty_sector
    from edpyt.lanczos import build_sl_tridiag, sl_solve
    from edpyt.matvec_product import matvec_operator
    from edpyt.tridiag import egs_tridiag
    r, rs = ctx.rng, ctx.np
    n = r.choice([2, 3, 4, 4] + ([5] if ctx.thorough else []))
    H, V = ref.rand_H(rs, n, "dense"), ref.rand_V(rs, n)
    q = (r.randint(0, n), r.randint(0, n))
    ctx.note(n=n, qns=q, H=H, V=V)
    sct = build_empty_sector(n, *q)
    mv = matvec_operator(*build_mb_ham(H, V, sct))
    v0 = rs.normal(size=sct.d)
    a, b = build_sl_tridiag(mv, v0.copy())
    A = ref.hamiltonian(H, V, ref.sector_basis(n, *q), n)
    w, X = np.linalg.eigh(A)
    if (X[:, 0].dot(v0) / np.linalg.norm(v0)) ** 2 < 1e-5:
        return
    ctx.close(egs_tridiag(a, b[1:]), w[0], "ground-state energy of the sector", atol=1e-6)
    e, x = sl_solve(mv, a, b, v0.copy(), select=2)
    if sct.d > 1 and w[1] - w[0] > .05 and abs(np.linalg.norm(x) - 1) < 1e-3:
        ctx.close(abs(x[:, 0].dot(X[:, 0])), 1., "ground state of the sector", atol=2e-3)
        ctx.count("ground_states")
    ctx.nontrivial(n, q, ctx.seed)


@chk.family("block", quick=120, thorough=1500)
def block(ctx):
    """Block recursion on generic blocks that do not exhaust their Krylov space."""
    from edpyt.lanczos import build_bd_tridiag
    r, rs = ctx.rng, ctx.np
    d, A, w, q, c, kind, start = problem(ctx, [60, 100, 160], ("generic", "shifted", "scaled"))
    L = r.choice([1, 2, 3, 4])
    vs = [rs.normal(size=d) * r.choice([1., 10.]) for _ in range(L)]
    ctx.note(block=L)
    T = build_bd_tridiag(A.dot, [x.copy() for x in vs])
    n = len(T)
    scale = max(1., np.abs(w).max())
    ctx.check(n > 0 and T.shape == (n, n), "square projection")
    ctx.close(T, T.T, "symmetric projection", atol=1e-9 * scale)
    i, j = np.indices(T.shape)
    ctx.close(T * (np.abs(i - j) > L), np.zeros_like(T), "band structure", atol=1e-9 * scale)
    th = np.linalg.eigvalsh(T)
    ctx.close(th[0], w[0], "lowest eigenvalue", atol=1e-6 * scale)
    ctx.check(th[-1] < w[-1] + 1e-6 * scale, "eigenvalues stay within the spectrum", top=th[-1], w=w[-1])
    # moments within the block
    Q, R = np.linalg.qr(np.array(vs).T)
    Q = Q * np.sign(np.diag(R))
    M, t = np.eye(d), np.eye(n)
    for k in range(1, 6):
        M, t = A.dot(M) / scale, T.dot(t) / scale
        ctx.close(t[:L, :L], Q.T.dot(M).dot(Q), "block moment %d" % k, atol=1e-8)
    ctx.count("block_recursions")
    ctx.nontrivial(d, L, kind, ctx.seed)


@chk.family("deflated", quick=60, thorough=900)
def deflated(ctx):
    """Block recursion some of whose directions end exactly on the way (start vectors that are eigenvectors, or zero)."""
    from edpyt.lanczos import build_bd_tridiag
    r, rs = ctx.rng, ctx.np
    d, m, L = r.choice([120, 160, 200]), r.choice([1, 2, 3]), r.choice([2, 3, 4])
    B = rs.normal(size=(d - m, d - m))
    B = (B + B.T) / 2 / np.sqrt(d)
    A, lev = np.zeros((d, d)), rs.choice([-3., 1., .5], m)  # exactly representable: the directions end without a residue
    A[m:, m:], A[np.arange(m), np.arange(m)] = B, lev
    vs = [rs.normal(size=d) * r.choice([1., 10.]) for _ in range(L)]
    for v in vs:
        v[:m] = 0
    seen = [np.linalg.eigvalsh(B)[0]]
    for p in r.sample(range(L), r.choice([1, 1, min(2, L - 1)])):
        vs[p][:] = 0
        if r.random() < .8:
            k = r.randrange(m)
            vs[p][k] = r.choice([1., 2., .5])
            seen.append(lev[k])
    ctx.note(d=d, m=m, L=L, levels=lev)
    calls = []

    def matvec(v):
        calls.append(v.copy())
        return A.dot(v)

    T = build_bd_tridiag(matvec, [v.copy() for v in vs])
    n = len(T)
    ctx.close(T, T.T, "symmetric projection", atol=1e-9)
    k = min(n, 20)
    V = np.array(calls[:k])
    ctx.close(V.dot(V.T), np.eye(k), "orthonormal block vectors", atol=1e-9)
    ctx.close(V.dot(A).dot(V.T), T[:k, :k], "the projection of the operator", atol=1e-9)
    for v in vs:
        ctx.close(V.T.dot(V.dot(v)), v, "start vectors are spanned", atol=1e-8)
    ctx.close(np.linalg.eigvalsh(T)[0], min(seen), "lowest visible eigenvalue", atol=1e-6)
    ctx.count("deflated_blocks")
    ctx.nontrivial(ctx.seed)


@chk.family("orthogonalise", quick=200, thorough=2000)
def orthogonalise(ctx):
    from edpyt.lanczos import gram_schmidt_columns, gram_schmidt_rows
    r, rs = ctx.rng, ctx.np
    m = r.randint(1, 6)
    d = m + r.randint(0, 8)
    X = rs.normal(size=(m, d))
    keep = X.copy()
    ctx.note(X=X)
    Y = gram_schmidt_rows(X)
    ctx.same(X, keep, "input is left alone")
    ctx.close(Y.dot(Y.T), np.eye(m), "orthonormal rows", atol=1e-8)
    for k in range(m):
        # each row lies in the span of the first k+1 inputs, positively oriented
        P = np.linalg.lstsq(X[:k + 1].T, Y[k], rcond=None)[0]
        ctx.close(X[:k + 1].T.dot(P), Y[k], "rows span the same flags", atol=1e-7)
        ctx.check(P[k] > 0, "orientation of row %d" % k)
    Z = gram_schmidt_rows(X.T, row_vecs=False)
    ctx.close(Z, Y.T, "column convention", atol=1e-10)
    N = gram_schmidt_rows(X, norm=False)
    ctx.close(N / np.linalg.norm(N, axis=1)[:, None], Y, "unnormalised rows", atol=1e-8)
    Q = gram_schmidt_columns(X.T)
    ctx.close(Q.T.dot(Q), np.eye(m), "orthonormal columns", atol=1e-10)
    ctx.nontrivial(m, d, ctx.seed)


@chk.family("exhausted_block", quick=1, thorough=1)
def exhausted_block(ctx):
    """Recorded finding: the block recursion runs past the exhaustion of a degenerate space."""
    from edpyt.lanczos import build_bd_tridiag
    A = np.diag([0., 0., 1., 1., 2.])
    bad = []
    for k in range(12):
        rs = np.random.RandomState(k)
        T = build_bd_tridiag(A.dot, [rs.normal(size=5) for _ in range(3)])
        if not np.linalg.eigvalsh((T + T.T) / 2)[0] > -1e-6:
            bad.append(k)
    ctx.count("exhausted_block_probe")
    if bad:
        ctx.known_finding("block-exhaustion", "the lowest eigenvalue is below the spectrum")


chk.main()
