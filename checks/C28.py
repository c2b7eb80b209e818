"""C28: distributed operation equals serial operation."""
import hashlib

import numpy as np

import edp
import fakempi
import ref
from vlib import Check

chk = Check("C28", needs=("psparse", "continued_fraction"), omp=1,
            rule="Every rank is a thread of one process on a rendezvous communicator that checks each collective (same operation, "
                 "compatible buffers, nobody missing) and logs it; seeded delays reorder the ranks. Redistribution on labelled "
                 "arrays, Hamiltonian products, Lanczos coefficients and vectors, occupations and nanostructure lattices on 1 to 12 "
                 "ranks against the serial result from the library and the reference; partitions that do not divide the space. "
                 "Non-trivial: distinct case with at least two ranks; arrival orders are hashed and counted.",
            assumptions=["the communicator stands in for mpi4py with the semantics of its buffer collectives (no MPI is installed)",
                         "recursion coefficients are compared until the recursion is exhausted or rounding has separated it"],
            require={"collectives": 1, "multi_rank": 1, "transposes": 1, "products": 1, "recursions": 1, "occupations": 1,
                     "lattices": 1, "rejected": 1})


def launch(ctx, size, fn, jitter=None):
    j = ctx.rng.choice([0., 0., 2e-4, 2e-3]) if jitter is None else jitter
    res, exc, w = fakempi.run(size, fn, seed=ctx.seed, jitter=j, timeout=60.)
    ctx.count("collectives", len(w.log[0]) - 1)
    if size > 1:
        ctx.count("multi_rank")
        ctx.nontrivial(ctx.family, size, hashlib.md5(repr(w.arrivals).encode()).hexdigest())
    return res, exc, w


def good(ctx, res, exc, w, what):
    bad = [(i, repr(e)) for i, e in enumerate(exc) if e is not None]
    ctx.check(not bad, what + ": every rank finishes", errors=bad, log=[l[-4:] for l in w.log])
    ctx.check(all(l == w.log[0] for l in w.log), what + ": every rank performs the same collectives", log=w.log if sum(map(len, w.log)) < 60 else [len(l) for l in w.log])
    return not bad


def divisors(d, most=12):
    return [k for k in range(1, most + 1) if d % k == 0]


@chk.family("transpose", quick=120, thorough=4000)
def transpose(ctx):
    from edpyt.vector_transpose import collect_dw, collect_up
    r, rs = ctx.rng, ctx.np
    size = r.choice([1, 2, 2, 3, 4, 5, 6, 8])
    m = r.choice([1, 1, 2, 3, 4])
    n = m * size
    dt = r.choice([float, np.int64, complex])
    A = np.arange(n * n).reshape(n, n).astype(dt) if r.random() < .5 else (rs.normal(size=(n, n)) * 100).astype(dt)
    seq = "".join(r.choice(["du", "dudu", "d", "du"]))
    ctx.note(size=size, m=m, dtype=str(dt), sequence=seq)

    def rank(comm):
        k = comm.Get_rank()
        a = A[k * m:(k + 1) * m].copy()
        out = []
        for c in seq:
            a = collect_dw(a, comm) if c == "d" else collect_up(a, comm)
            out.append(a.copy())
        return out
    res, exc, w = launch(ctx, size, rank)
    if good(ctx, res, exc, w, "redistribution"):
        for k, out in enumerate(res):
            for c, a in zip(seq, out):
                want = A[:, k * m:(k + 1) * m] if c == "d" else A[k * m:(k + 1) * m]
                ctx.check(a.shape == want.shape and np.array_equal(a, want) and a.dtype == want.dtype,
                          "rank %d holds its %s" % (k, "columns" if c == "d" else "rows"), got=a, want=want)
                ctx.count("transposes")
    if size == 1:
        a = collect_dw(A.copy())
        ctx.check(np.array_equal(a, A), "one process: nothing moves")
        ctx.check(np.array_equal(collect_up(a), A), "one process: nothing moves")


@chk.family("reject", quick=40, thorough=600)
def reject(ctx):
    """Partitions that do not fit."""
    from edpyt.espace import build_empty_sector
    from edpyt.build_mb_ham import build_mb_ham
    from edpyt.matvec_product import matvec_operator
    from edpyt.vector_transpose import collect_dw, collect_up
    r, rs = ctx.rng, ctx.np
    kind = r.choice(["dw", "up", "spins", "divisor"])
    size = r.choice([2, 3, 4])
    if kind in ("dw", "up"):
        m, n = r.choice([(2, 2 * size + 1), (3, 2 * size), (1, size + 1), (4, 2 * size)])
        f, shape = (collect_dw, (m, n)) if kind == "dw" else (collect_up, (n, m))
        run = lambda comm: f(np.zeros(shape), comm)
    else:
        n = r.choice([3, 4, 5])
        if kind == "spins":
            a, b = r.choice([(a, b) for a in range(n + 1) for b in range(n + 1) if a != b and a + b != n])
            size = r.choice([1, 2])
        else:
            a = b = r.choice([k for k in range(1, n)])
            d = len(ref.basis(n, a))
            size = r.choice([k for k in range(2, d + 3) if d % k])
        sct = build_empty_sector(n, a, b)
        ops = build_mb_ham(ref.rand_H(rs, n, kind="dense"), ref.rand_V(rs, n), sct)

        def run(comm):
            du, dd = sct.states.up.size, sct.states.dw.size
            for l in (dd // size, -(-dd // size)):         # whatever share a user would hand out
                mv = matvec_operator(np.resize(ops[0], l * du), *ops[1:], comm=comm)
                mv(np.ones(l * du))
        ctx.note(n=n, sector=(a, b))
    ctx.note(kind=kind, size=size)
    res, exc, w = launch(ctx, size, run, jitter=0.)
    ctx.check(all(e is not None for e in exc), "every rank rejects the partition", errors=[repr(e) for e in exc])
    ctx.check(all(isinstance(e, (ValueError, NotImplementedError, AssertionError)) for e in exc), "with an error of the library",
              errors=[repr(e) for e in exc])
    ctx.check(not any(n != "exit" for l in w.log for n in l), "before any communication", log=w.log)
    ctx.count("rejected")


def problem(ctx, big):
    from edpyt.espace import build_empty_sector
    from edpyt.build_mb_ham import build_mb_ham
    r, rs = ctx.rng, ctx.np
    n = r.choice([2, 3, 4, 4, 5, 6] if big else [2, 3, 4, 4, 5])
    k = r.randint(0, n) if r.random() < .2 else r.randint(1, n - 1)
    pair = (k, k) if r.random() < .7 or 2 * k == n else (k, n - k)     # equal dimensions
    sct = build_empty_sector(n, *pair)
    H = ref.rand_H(rs, n, spin=r.random() < .4, kind=r.choice([None, "dense"]))
    V = ref.rand_V(rs, n)
    d = sct.states.up.size
    size = r.choice(divisors(d))
    ops = build_mb_ham(H, V, sct)
    D = ref.hamiltonian(H, V, ref.sector_basis(n, *pair), n)
    ctx.note(n=n, sector=pair, size=size, H=H, V=V)
    return n, sct, ops, D, d, size


def mine(x, comm, d):
    """The rank's contiguous part of a sector vector (rows of spin-down configurations)."""
    k, l = comm.Get_rank(), d // comm.Get_size() * d
    return x[k * l:(k + 1) * l]


@chk.family("product", quick=100, thorough=2500)
def product(ctx):
    from edpyt.matvec_product import matvec_operator
    rs = ctx.np
    n, sct, ops, D, d, size = problem(ctx, ctx.thorough)
    X = [rs.normal(size=d * d) for _ in range(2)] + [np.arange(d * d) + 1.]
    frz = edp.Frozen(diag=ops[0], **{"m%d%s" % (i, a): getattr(o, a) for i, o in enumerate(ops[1:]) for a in ("data", "indices", "indptr")})

    def rank(comm):
        mv = matvec_operator(mine(ops[0], comm, d).copy(), *ops[1:], comm=comm)
        out = []
        for x in X:
            v = mine(x, comm, d).copy()
            y = mv(v)
            out.append((y.copy(), v))
        # results stay valid while the operator is used again
        y0 = mv(mine(X[0], comm, d).copy())
        keep = y0.copy()
        mv(mine(X[1], comm, d).copy())
        return out, np.array_equal(y0, keep)
    if len(ops) < 3:
        ctx.count("no_hopping")
        return
    res, exc, w = launch(ctx, size, rank)
    if good(ctx, res, exc, w, "product"):
        for q, x in enumerate(X):
            y = np.concatenate([out[0][q][0] for out in res])
            v = np.concatenate([out[0][q][1] for out in res])
            ctx.close(y, D.dot(x), "distributed product", atol=1e-10, rtol=1e-10)
            ctx.close(y, matvec_operator(*ops)(x.copy()), "distributed and serial product", atol=1e-11, rtol=1e-11)
            ctx.check(np.array_equal(v, x), "the vector is left as it was", before=x, after=v)
            ctx.count("products")
        ctx.check(all(k for _, k in res), "an earlier result survives the next product")
    frz.verify(ctx)


@chk.family("lanczos", quick=70, thorough=1500)
def lanczos(ctx):
    from edpyt.lanczos import build_sl_tridiag, sl_solve, sl_step, ZeroNormInitialVector
    from edpyt.matvec_product import matvec_operator
    r, rs = ctx.rng, ctx.np
    n, sct, ops, D, d, size = problem(ctx, ctx.thorough)
    if len(ops) < 3:
        ctx.count("no_hopping")
        return
    x = rs.normal(size=d * d)
    kind = r.choice(["random", "random", "unit", "zero"])
    if kind == "unit":
        x[:] = 0
        x[r.randrange(d * d)] = 1.5
    if kind == "zero":
        x[:] = 0.
    kw = r.choice([{}, dict(maxn=r.randint(2, 12)), dict(ND=3), dict(maxn=30, tol=1e-6)])
    many = r.choice([1, 1, 2, 3])
    ctx.note(start=kind, options=kw)
    pad = np.seterr(all="ignore")

    def rank(comm):
        mv = matvec_operator(mine(ops[0], comm, d).copy(), *ops[1:], comm=comm)
        with np.errstate(all="ignore"):
            a, b = build_sl_tridiag(mv, mine(x, comm, d).copy(), comm=comm, **kw)
            k = min(many, a.size)
            w, v = sl_solve(mv, a, b, mine(x, comm, d).copy(), select=2, select_range=(0, k - 1), comm=comm)
        step = sl_step(mv, comm)
        v0 = mine(x, comm, d).copy()
        s = step(v0, np.zeros_like(v0))
        return a, b, w, np.array(v), [np.array(t) for t in s]
    res, exc, wd = launch(ctx, size, rank, jitter=r.choice([0., 1e-4]))
    np.seterr(**pad)
    if kind == "zero":
        ctx.check(all(isinstance(e, ZeroNormInitialVector) for e in exc), "a vanishing start is reported by every rank", errors=[repr(e) for e in exc])
        return
    if not good(ctx, res, exc, wd, "recursion"):
        return
    a, b, w, v, _ = res[0]
    for q in res[1:]:
        ctx.check(np.array_equal(q[0], a) and np.array_equal(q[1], b) and np.array_equal(q[2], w), "every rank holds the same coefficients")
    mv = matvec_operator(*ops)
    with np.errstate(all="ignore"):
        sa, sb = build_sl_tridiag(mv, x.copy(), **kw)
    # exact coefficients by the reference recursion with reorthogonalisation
    import gfs
    e, U = np.linalg.eigh(D)
    ra, rb = gfs.lanczos(e, U.T.dot(x), 14)
    m = min(a.size, ra.size, 12)
    small = np.where(rb[:m] < 1e-3)[0]
    m = min(m, small[0] + 1) if small.size else m
    ctx.close(a[:m], ra[:m], "diagonal coefficients", atol=1e-5)
    ctx.close(b[1:m], rb[:m - 1], "off-diagonal coefficients", atol=1e-5)
    ctx.close(b[0], np.linalg.norm(x), "norm of the start", atol=1e-10)
    ctx.close(a[:min(m, sa.size)], sa[:min(m, a.size)], "distributed and serial coefficients", atol=1e-5)
    exhausted = ra.size <= 14 and a.size > ra.size or bool(np.any(b[1:] < 1e-6))
    if not exhausted and abs(sa.size - a.size) > 0:
        ctx.count("different_length")
    ctx.check(a.size <= kw.get("maxn", 500), "number of steps")
    if not kw.get("maxn") and not kw.get("tol"):
        vis = e[np.abs(U.T.dot(x)) > 1e-6]
        t = np.linalg.eigvalsh(np.diag(a) + np.diag(b[1:], 1) + np.diag(b[1:], -1))
        if np.all(np.isfinite(a)) and not exhausted:
            ctx.close(t[0], vis[0], "lowest level", atol=1e-7)
            ctx.count("levels")
    # eigenvectors of the projection, distributed over the ranks
    s = [np.concatenate([q[4][k] for q in res]) if k > 1 else q0 for k, q0 in enumerate(res[0][4])]
    nx = np.linalg.norm(x)
    u = x / nx
    ctx.close(s[1], nx, "step: norm", atol=1e-10)
    ctx.close(s[0], u.dot(D.dot(u)), "step: diagonal", atol=1e-9)
    ctx.close(s[2], u, "step: vector", atol=1e-11)
    ctx.close(s[3], D.dot(u) - u * u.dot(D.dot(u)), "step: next vector", atol=1e-9)
    if not exhausted:
        with np.errstate(all="ignore"):
            sw, sv = sl_solve(mv, a, b, x.copy(), select=2, select_range=(0, w.size - 1))
        V = np.concatenate([q[3] for q in res])
        ctx.check(V.shape == sv.shape, "every rank holds its part of the vectors", got=V.shape, want=sv.shape)
        ctx.close(w, sw, "levels of the projection", atol=1e-9)
        if a.size <= 14:
            for k in range(w.size):
                o = abs(V[:, k].dot(sv[:, k]))
                ctx.close(o, np.linalg.norm(V[:, k]) * np.linalg.norm(sv[:, k]), "distributed and serial vectors", atol=1e-5)
    ctx.count("recursions")


@chk.family("occupation", quick=80, thorough=2000)
def occupation(ctx):
    from edpyt.espace import build_empty_sector
    from edpyt.observs import get_evecs_occupation
    r, rs = ctx.rng, ctx.np
    n = r.choice([2, 3, 4, 5])
    a, b = r.randint(0, n), r.randint(0, n)
    sct = build_empty_sector(n, a, b)
    du, dd = sct.states.up.size, sct.states.dw.size
    size = r.choice(divisors(dd))
    nev = r.choice([1, 2, 4])
    X = rs.normal(size=(du * dd, nev))
    co = rs.rand(nev) if r.random() < .5 else None
    lay = r.choice(["F", "C"])
    gone = r.random() < .4                                # parts without weight
    if gone:
        for k in range(size):
            if r.random() < .5:
                X[k * (dd // size * du):(k + 1) * (dd // size * du)] = 0.
    ctx.note(n=n, sector=(a, b), size=size, nev=nev, layout=lay, coeffs=co, empty_parts=gone)

    def rank(comm):
        k, l = comm.Get_rank(), dd // size * du
        x = np.array(X[k * l:(k + 1) * l], order=lay)
        if co is None:
            return get_evecs_occupation(x, sct.states.up, sct.states.dw, n, comm=comm)
        return get_evecs_occupation(x, sct.states.up, sct.states.dw, n, co, comm=comm)
    res, exc, w = launch(ctx, size, rank)
    if good(ctx, res, exc, w, "occupations"):
        st = ref.sector_basis(n, a, b)
        P = X ** 2 * (1. if co is None else co)
        want = [np.array([(P * ((st >> (k + s * n)) & 1)[:, None]).sum(0) for k in range(n)]) for s in range(2)]
        for k, (u, d) in enumerate(res):
            ctx.close(u, want[0], "up occupations on rank %d" % k, atol=1e-10)
            ctx.close(d, want[1], "down occupations on rank %d" % k, atol=1e-10)
        ctx.count("occupations")


@chk.family("lattice", quick=60, thorough=1200)
def lattice(ctx):
    """The nanostructure distributed over the non-equivalent sites."""
    from edpyt.nano_dmft import Gfloc
    r, rs = ctx.rng, ctx.np
    size = r.choice([1, 2, 2, 3, 4])
    per = r.choice([1, 1, 2, 3])
    k = size * per
    odd = size > 1 and r.random() < .15
    if odd:
        k = max(1, k - r.choice([1, size - 1]))
    n = k + r.choice([0, 1, 3])
    H = rs.normal(size=(n, n))
    H = (H + H.T) / 2
    S = np.eye(n)
    if r.random() < .4:
        B = rs.normal(size=(n, n)) * .2
        S = S + B.dot(B.T)
    gam = np.diag(rs.uniform(.1, .6, n))
    hyb = lambda z: -1j * np.sign(np.imag(z)) * gam
    lab = np.concatenate([np.arange(k), rs.randint(k, size=n - k)])
    rs.shuffle(lab)
    neq = np.array([r.choice(list(np.where(lab == c)[0])) for c in range(k)])
    sp = r.random() < .4
    c0, w0, e0 = [rs.normal(size=(k, 2) if sp else (k,)) for _ in range(3)]
    Sig = lambda z, q=slice(None): np.ascontiguousarray(c0[q][..., None] + w0[q][..., None] ** 2 / (np.atleast_1d(z) - e0[q][..., None]))
    z = 1j * (2 * np.arange(r.choice([1, 3, 6])) + 1) * .3 if r.random() < .6 else rs.uniform(-2, 2, 4) + .3j
    mu = float(rs.normal())
    fill = r.random() < .15 and S[0, 0] == 1.
    ctx.note(n=n, k=k, size=size, spin=sp, neq=neq, inv=lab, mu=mu, z=z)

    def rank(comm):
        g = Gfloc(H, S, hyb, neq, lab, comm=comm)
        g.update(mu)
        q = slice(comm.rank * (k // size), (comm.rank + 1) * (k // size))
        g.set_local(lambda zz: Sig(zz, q))
        out = [np.array(g.ed), np.array(g(z)), np.array(g.Weiss(z)), np.array(g.Delta(z))]
        if fill:
            out.append(np.array(g.integrate(mu)))
        return out
    res, exc, w = launch(ctx, size, rank)
    if k % size:
        ctx.check(all(e is not None for e in exc), "sites that cannot be shared out are rejected", errors=[repr(e) for e in exc])
        ctx.count("rejected")
        return
    if good(ctx, res, exc, w, "lattice"):
        s = Sig(z)
        G = np.empty(s.shape, complex)
        for i in np.ndindex(s.shape[1:]):
            M = (z[i[-1]] + mu) * S - H - hyb(z[i[-1]]) - np.diag(s[(slice(None),) + i][lab])
            G[(slice(None),) + i] = np.linalg.inv(M)[neq, neq]
        ed = H.diagonal()[neq]
        full = [ed, G, 1 / G + s, z + mu - ed.reshape((k,) + (1,) * (s.ndim - 1)) - 1 / G - s]
        for j, (what, f) in enumerate(zip(["levels", "local function", "Weiss field", "hybridisation"], full)):
            got = [o[j] for o in res]
            ctx.check(all(g.shape == (per,) + f.shape[1:] for g in got), what + ": every rank holds its sites", got=[g.shape for g in got])
            ctx.close(np.concatenate(got), f, what + " of all ranks", atol=1e-9, rtol=1e-8)
        if fill:
            g = Gfloc(H, S, hyb, neq, lab)
            g.update(mu)
            g.set_local(Sig)
            one = np.array(g.integrate(mu))
            for o in res:
                ctx.close(o[4], one, "fillings of all sites on every rank", atol=1e-10)
            ctx.count("fillings")
        ctx.count("lattices")


chk.main()
