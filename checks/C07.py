"""C07: sector eigensolutions are true, ordered, lowest eigenpairs."""
import numpy as np

import edp
import gfs
import ref
from vlib import Check

chk = Check("C07", needs=("psparse",), omp=2,
            rule="Random Hamiltonians (structures, interactions, settings, both symmetries) through solve_sector and "
                 "build_espace, direct and iterative solver; every returned pair is judged by residual and orthonormality "
                 "against the reference Hamiltonian and by the full reference spectrum. Non-trivial: more than one state "
                 "in the sector and a Hamiltonian that is not a multiple of the identity.",
            assumptions=["numba-compiled functions behave as their Python source (numba is not installed)",
                         "LAPACK's dense eigenvalues are correct"])

GROUP = 1e-6


def judge(ctx, A, e, v, k, what, lowest=True, exact=True):
    """e, v: the k lowest eigenpairs of A. exact=False: an iterative solver may miss copies of a degenerate level."""
    d = len(A)
    k = min(k, d)
    e, v = np.asarray(e), np.asarray(v)
    ctx.eq(e.shape, (k,), what + ": number of eigenvalues", "count")
    ctx.eq(v.shape, (d, k), what + ": shape of the eigenvectors", "count")
    scale = max(1., float(np.abs(A).sum(1).max()))
    ctx.check(bool(np.all(np.diff(e) >= -1e-10 * scale)), what + ": ascending order", e=e)
    ctx.close(A.dot(v), v * e, what + ": eigenvalue equation", atol=1e-9 * scale, rtol=0)
    ctx.close(v.T.dot(v), np.eye(k), what + ": orthonormality", atol=1e-9, rtol=0)
    w = np.linalg.eigvalsh(A)
    gaps = np.diff(w[:k + 1])
    if exact or not (gaps < GROUP).any():
        ctx.close(e, w[:k], what + ": the lowest eigenvalues", atol=1e-9 * scale, rtol=0)
        ctx.count("spectra_compared_exactly")
    else:
        # every distinct level below the highest returned one is present
        ctx.check(abs(e[0] - w[0]) <= 1e-9 * scale, what + ": the ground state", e=e[0], w=w[0])
        below = w[w < e[-1] - GROUP]
        miss = [x for x in below if np.abs(e - x).min() > 1e-8 * scale]
        ctx.check(not miss, what + ": a level below the highest returned one is missing", missing=miss[:4], e=e, w=w[:k])
        ctx.count("spectra_compared_by_level")
    ctx.count("eigenpairs", k)


def problem(ctx, n, allow_dict=True):
    r, rs = ctx.rng, ctx.np
    H, kind = edp.layout(rs, ref.rand_H(rs, n, spin=rs.rand() < .5))
    V = ref.rand_V(rs, n)
    if allow_dict and n > 1 and r.random() < .25:
        V = {"U": V}
        for j in r.sample(["Jx", "Jp"], r.randint(1, 2)):
            V[j] = ref.rand_J(rs, n)
    st = edp.rand_settings(rs, n)
    ctx.note(n=n, H=np.array(H), V=V, settings=st, layout=kind)
    return H, V, st


@chk.family("direct", quick=500, thorough=4000)
def direct(ctx):
    from edpyt.espace import build_empty_sector, solve_sector
    r, rs = ctx.rng, ctx.np
    n = r.choice([1, 2, 3, 3, 4, 4])
    H, V, st = problem(ctx, n)
    charge = r.random() < .25 and n < 4
    q = (r.randint(0, 2 * n),) if charge else (r.randint(0, n), r.randint(0, n))
    states = ref.charge_basis(n, *q) if charge else ref.sector_basis(n, *q)
    d = len(states)
    k = r.choice([None, 1, d, d + 1, r.randint(1, d)])
    ctx.note(qns=q, k=k)
    sct = build_empty_sector(n, *q)
    ctx.eq(sct.d, d, "dimension of the sector")
    g = edp.Frozen(H=H)
    with edp.settings(**st):
        e, v = solve_sector(H, V, sct, k)
    g.verify(ctx)
    A = ref.hamiltonian(np.array(H), V, states, n, hop=not charge, **st)
    judge(ctx, A, e, v, d if k is None else k, "direct solver")
    if d > 1 and np.ptp(np.linalg.eigvalsh(A)) > 1e-9:
        ctx.nontrivial(n, q, k, ctx.seed)
    ctx.sample(n=n, qns=q, k=k, H=np.array(H))


@chk.family("iterative", quick=16, thorough=260)
def iterative(ctx):
    """Sectors beyond the solver switch, few states requested."""
    from edpyt.espace import build_empty_sector, solve_sector
    r, rs = ctx.rng, ctx.np
    n, q = r.choice([(7, (2, 3)), (7, (3, 2)), (7, (2, 3)), (7, (3, 3)), (7, (4, 2)), (6, (5,)), (6, (7,)), (8, (1, 4)), (8, (2, 2))])
    H = ref.rand_H(rs, n, r.choice(["dense", "chain", "star", "ring"]), spin=r.random() < .5)
    V = ref.rand_V(rs, n)
    if len(q) == 1 and r.random() < .5:
        V = {"U": V, "Jx": ref.rand_J(rs, n)}
    st = edp.rand_settings(rs, n)
    k = r.choice([1, 2, 3, 6, 12, 40])
    ctx.note(n=n, qns=q, k=k, H=H, V=V, settings=st)
    sct = build_empty_sector(n, *q)
    with edp.settings(**st):
        e, v = solve_sector(H, V, sct, k)
    A = ref.hamiltonian(H, V, ref.charge_basis(n, *q) if len(q) == 1 else ref.sector_basis(n, *q), n,
                        hop=len(q) == 2, **st)
    judge(ctx, A, e, v, k, "iterative solver", exact=False)
    ctx.nontrivial(n, q, k, ctx.seed)
    ctx.sample(n=n, qns=q, k=k)


@chk.family("arpack", quick=120, thorough=1500)
def arpack(ctx):
    """The reverse-communication driver on matrices with a known spectrum."""
    from edpyt.eigh_arpack import eigsh
    r, rs = ctx.rng, ctx.np
    d = r.choice([3, 5, 12, 21, 40, 90, 200])
    k = min(r.choice([1, 2, 3, 6, 10, 20, 45, d - 1]), d - 1)
    kind = r.choice(["normal", "uniform", "shifted", "negative", "scaled"])
    # levels at least 0.02 apart on average, no exact degeneracy
    w = np.cumsum(.01 + rs.rand(d))
    w -= {"normal": w.mean(), "uniform": 0., "shifted": -50., "negative": w.max() + 1., "scaled": w[k // 2]}[kind]
    if kind == "scaled":
        w *= 1e-3
    qm, _ = np.linalg.qr(rs.normal(size=(d, d)))
    A = (qm * w).dot(qm.T)
    A = (A + A.T) / 2
    v0 = rs.normal(size=d) if r.random() < .4 else None
    calls = [0]
    ctx.note(d=d, k=k, kind=kind, v0=v0 is not None)

    def mv(x):
        calls[0] += 1
        return A.dot(x)
    g = edp.Frozen(A=A, v0=v0)
    e, v = eigsh(d, k, mv, v0=v0)
    g.verify(ctx)
    judge(ctx, A, e, v, k, "eigsh", exact=True)
    ctx.check(calls[0] > 0, "the operator was applied")
    ctx.count("operator_applications", calls[0])
    ctx.nontrivial(d, k, kind, v0 is None, ctx.seed)
    ctx.sample(d=d, k=k, kind=kind)


@chk.family("espace", quick=120, thorough=1200)
def espace(ctx):
    from edpyt.espace import build_espace, get_espace_dim
    r, rs = ctx.rng, ctx.np
    n = r.choice([1, 2, 2, 3, 3, 4])
    sym = r.choice(["sz", "sz", "N", "n", "SZ"]) if n < 4 else "sz"
    H, V, st = problem(ctx, n, allow_dict=sym in "Nn")
    if sym in "Nn":
        secs = [((N,), ref.charge_basis(n, N)) for N in range(2 * n + 1)]
    else:
        secs = [((u, d), ref.sector_basis(n, u, d)) for u in range(n + 1) for d in range(n + 1)]
    dims = np.array([len(s) for _, s in secs])
    mode = r.choice(["none", "max", "vector", "vector", "one"])
    if mode == "none":
        neig = None
    elif mode == "max":
        neig = get_espace_dim(n, r.randint(1, 6), symmetry=sym)
    elif mode == "one":
        neig = np.zeros(len(secs), int)
        neig[r.randrange(len(secs))] = 1
    else:
        neig = np.array([r.choice([0, 1, 2, d, r.randint(0, d)]) for d in dims])
        if not neig.any():
            neig[0] = 1
    ctx.note(symmetry=sym, mode=mode, neig=neig)
    before = None if neig is None else neig.copy()
    g = edp.Frozen(H=H)
    with edp.settings(**st):
        es, egs = build_espace(H, V, neig, symmetry=sym)
    g.verify(ctx)
    if neig is not None:
        ctx.same(neig, before, "the request is left alone")
    want = [q for k, (q, _) in enumerate(secs) if neig is None or neig[k] > 0]
    ctx.eq([tuple(int(x) for x in q) for q in es.keys()], want, "sectors solved, in order")
    mins = []
    for k, (q, states) in enumerate(secs):
        if q not in es:
            continue
        A = ref.hamiltonian(np.array(H), V, states, n, hop=len(q) == 2, **st)
        sct = es[q]
        ctx.eq(sct.d, len(states), "dimension of the sector")
        judge(ctx, A, sct.eigvals, sct.eigvecs, dims[k] if neig is None else neig[k], "sector %s" % (q,))
        if len(q) == 2:
            ctx.same(np.asarray(sct.states.up, int), ref.basis(n, q[0]), "up states of the sector")
            ctx.same(np.asarray(sct.states.dw, int), ref.basis(n, q[1]), "down states of the sector")
        mins.append(np.linalg.eigvalsh(A)[0])
        ctx.count("sectors_solved")
    ctx.close(egs, min(mins), "ground-state energy", atol=1e-9, rtol=1e-10)
    ctx.nontrivial(n, sym, mode, ctx.seed)
    ctx.sample(n=n, symmetry=sym, mode=mode)


@chk.family("dimensions", quick=60, thorough=200)
def dimensions(ctx):
    from math import factorial as f

    from edpyt.espace import build_espace, get_espace_dim
    r = ctx.rng
    n = r.randint(1, 12)
    c = lambda a, b: f(a) // f(b) // f(a - b)
    m = r.choice([None, 1, 3, 10, 500])
    ctx.note(n=n, neig_max=m)
    sz = np.array([c(n, u) * c(n, d) for u in range(n + 1) for d in range(n + 1)])
    N = np.array([c(2 * n, k) for k in range(2 * n + 1)])
    if m:
        sz, N = np.minimum(sz, m), np.minimum(N, m)
    ctx.same(get_espace_dim(n, m), sz, "spin-resolved dimensions")
    ctx.same(get_espace_dim(n, m, "sz"), sz, "spin-resolved dimensions")
    ctx.same(get_espace_dim(n, m, symmetry="N"), N, "charge-only dimensions")
    ctx.raises(NotImplementedError, lambda: get_espace_dim(n, m, symmetry="su2"), "unknown symmetry")
    ctx.raises(NotImplementedError, lambda: build_espace(np.eye(2), np.eye(2), symmetry="foo"), "unknown symmetry")
    ctx.nontrivial(n, m)


@chk.family("incomplete", quick=1, thorough=1)
def incomplete(ctx):
    """Recorded finding: ARPACK's early stop is not reported (atomic limit: three distinct levels)."""
    from edpyt.espace import build_empty_sector, solve_sector
    n, k = 7, 20
    sct = build_empty_sector(n, 2, 3)
    e, v = solve_sector(np.zeros((n, n)), np.eye(n) * 2., sct, k)
    ctx.count("incomplete_probe")
    if len(e) != k:
        ctx.known_finding("arpack-incomplete", "%d of %d requested states were returned without an error" % (len(e), k))

@chk.family("history", quick=30, thorough=400)
def history(ctx):
    """The whole space is solved again after the model changed in the caller's arrays; earlier solutions stay."""
    from edpyt.espace import build_espace
    r = ctx.rng
    n = r.choice([1, 2, 3])
    H, V, st = problem(ctx, n)
    H = np.array(H)
    sym = "sz"
    old = []
    for _ in range(4):
        with edp.settings(**st):
            es, egs = build_espace(H, V, symmetry=sym)
        mins = []
        for q, sct in es.items():
            A = ref.hamiltonian(H, V, ref.sector_basis(n, *q), n, **st)
            judge(ctx, A, sct.eigvals, sct.eigvecs, sct.d, "changed model, sector %s" % (q,))
            mins.append(np.linalg.eigvalsh(A)[0])
            old.append((sct, np.array(sct.eigvals), np.array(sct.eigvecs)))
            ctx.count("sectors_solved")
        ctx.close(egs, min(mins), "ground-state energy of the changed model", atol=1e-9, rtol=1e-10)
        ctx.note(changed=gfs.change(ctx, H, V, st, n))
    for sct, e, v in old:
        ctx.check(np.array_equal(sct.eigvals, e) and np.array_equal(sct.eigvecs, v), "an earlier solution stays the same")
    ctx.nontrivial(n, ctx.seed)


chk.main()
