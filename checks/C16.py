"""C16: site occupations are expectation values and the vectors stay untouched."""
import numpy as np

import edp
import ref
from vlib import Check

chk = Check("C16", needs=("psparse",), omp=2,
            rule="Random sectors, sets of vectors (normalised, unnormalised, sparse, basis states, degenerate eigenvectors; C, "
                 "Fortran, sliced and read-only layouts), with and without weights, repeated on the same array in random "
                 "order; thermal averages over complete, screened and partial eigenspaces. Oracle: brute-force count over the "
                 "basis. Non-trivial: a sector with more than one state per spin.",
            assumptions=["numba-compiled functions behave as their Python source (numba is not installed)"],
            require={"vectors": 1, "C": 1, "F": 1, "strided": 1, "weighted": 1, "thermal": 1})


def brute(vec, n, nup, ndw):
    st = ref.sector_basis(n, nup, ndw)
    p = np.asarray(vec) ** 2
    return (np.array([(p * ((st >> k) & 1)[:, None]).sum(0) for k in range(n)]),
            np.array([(p * ((st >> (k + n)) & 1)[:, None]).sum(0) for k in range(n)]))


def lay(ctx, v):
    k = ctx.rng.choice(["C", "F", "strided", "readonly", "colslice", "rowstep", "colstep", "reversed"])
    if k == "C":
        out = np.ascontiguousarray(v)
    elif k == "F":
        out = np.asfortranarray(v)
    elif k == "strided":
        big = np.zeros((2 * v.shape[0], 2 * v.shape[1]))
        out = big[::2, ::2]
        out[...] = v
    elif k == "colslice":
        big = np.array(ctx.np.normal(size=(v.shape[0], v.shape[1] + 2)), order=ctx.rng.choice("CF"))
        out = big[:, 1:-1]
        out[...] = v
    elif k == "colstep":
        big = np.array(ctx.np.normal(size=(v.shape[0], 2 * v.shape[1])), order=ctx.rng.choice("FFC"))
        out = big[:, ctx.rng.randrange(2)::2]
        out[...] = v
    elif k == "reversed":
        out = np.array(v[:, ::-1], order=ctx.rng.choice("FFC"))[:, ::-1]
    elif k == "rowstep":
        big = np.zeros((v.shape[0] * 3, v.shape[1]))
        out = big[1::3]
        out[...] = v
    else:
        out = np.array(v)
        out.flags.writeable = False
    return k, out


@chk.family("vectors", quick=300, thorough=12000)
def vectors(ctx):
    from edpyt.observs import get_evecs_occupation
    from edpyt.sector import generate_states
    r, rs = ctx.rng, ctx.np
    n = r.choice([1, 2, 3, 3, 4, 4, 5])
    nup, ndw = r.randint(0, n), r.randint(0, n)
    up, dw = generate_states(n, nup), generate_states(n, ndw)
    d = up.size * dw.size
    nev = r.choice([1, 1, 2, 3, min(d, 7)])
    kind = r.choice(["norm", "norm", "raw", "basis", "sparse"])
    v = rs.normal(size=(d, nev))
    if kind == "sparse":
        v *= rs.rand(d, nev) < .3
    if kind == "basis":
        v[:] = 0
        v[rs.randint(0, d, nev), np.arange(nev)] = 1
    if kind in ("norm", "raw") and up.size == dw.size and r.random() < .4:            # symmetric under exchange of the spins
        w = v.reshape(dw.size, up.size, nev)
        v = (w + w.transpose(1, 0, 2)).reshape(d, nev) / 2
        if not v.any(axis=0).all():
            v[0] = 1.
    if kind == "norm":
        v /= np.linalg.norm(v, axis=0)
    wu, wd = brute(v, n, nup, ndw)
    lk, vec = lay(ctx, v)
    ctx.note(n=n, nup=nup, ndw=ndw, nev=nev, kind=kind, layout=lk)
    fz = edp.Frozen(vec=vec, up=up, dw=dw)
    for rep in range(3):
        c = None if r.random() < .5 else rs.normal(size=nev)
        fc = edp.Frozen(c=c)
        a, b = get_evecs_occupation(vec, up, dw, n, *(() if c is None and r.random() < .5 else (c,)))
        f = np.ones(nev) if c is None else c
        ctx.close(a, wu * f, "up occupation, call %d, %s layout" % (rep, lk), atol=1e-12, rtol=1e-10)
        ctx.close(b, wd * f, "down occupation, call %d, %s layout" % (rep, lk), atol=1e-12, rtol=1e-10)
        fz.verify(ctx)
        fc.verify(ctx)
        if kind in ("norm", "basis") and c is None:
            ctx.check(bool(np.all(a > -1e-12) and np.all(a < 1 + 1e-12) and np.all(b > -1e-12) and np.all(b < 1 + 1e-12)), "occupations lie in [0,1]", up=a, dw=b)
            ctx.close(a.sum(0), np.full(nev, float(nup)), "up occupations add up to nup", atol=1e-10)
            ctx.close(b.sum(0), np.full(nev, float(ndw)), "down occupations add up to ndw", atol=1e-10)
        ctx.count("weighted", c is not None)
        # results are not overwritten by a later call, and each is the caller's own
        keep, keep_b = a.copy(), b.copy()
        get_evecs_occupation(vec, up, dw, n)
        ctx.check(np.array_equal(a, keep) and np.array_equal(b, keep_b), "earlier results stay as they were")
        a += 1.
        ctx.check(np.array_equal(b, keep_b), "the occupations of the two spins are separate arrays", before=keep_b, after=b)
        fz.verify(ctx)
    ctx.count("vectors", nev)
    ctx.count(lk)
    if up.size > 1 and dw.size > 1:
        ctx.nontrivial(ctx.seed)


@chk.family("thermal", quick=60, thorough=2500)
def thermal(ctx):
    from edpyt.espace import build_espace, screen_espace
    from edpyt.observs import get_evecs_occupation, get_occupation
    r, rs = ctx.rng, ctx.np
    n = r.choice([1, 2, 2, 3, 3, 4]) if ctx.thorough else r.choice([1, 2, 2, 3])
    H = ref.rand_H(rs, n, spin=r.random() < .5)
    V = ref.rand_V(rs, n)
    cfg = edp.rand_settings(rs, n)
    beta = r.choice([.1, 1., 5., 50., 1e3])
    ctx.note(n=n, H=H, V=V, cfg=cfg, beta=beta)
    with edp.settings(**cfg):
        espace, egs = build_espace(H, V)
    E = ref.Ensemble(H, V, n, **cfg)
    # the sectors' vectors may come in either memory order
    for s in espace.values():
        s.eigvecs = np.array(s.eigvecs, order=r.choice("CF"))
    fz = edp.Frozen(**{"v%d%d" % q: s.eigvecs for q, s in espace.items()})
    fe = edp.Frozen(**{"e%d%d" % q: s.eigvals for q, s in espace.items()})
    wu, wd = E.occupation(beta)
    for rep in range(2):
        shift = r.choice([0., 1., -1.]) * rs.rand() * min(100. / beta, 3.)
        a, b = get_occupation(espace, egs + shift, beta, n)
        tol = 1e-9 + 1e-11 * beta
        ctx.close(a, wu, "thermal up occupation, call %d" % rep, atol=tol)
        ctx.close(b, wd, "thermal down occupation, call %d" % rep, atol=tol)
        fz.verify(ctx)
        fe.verify(ctx)
        ctx.count("thermal")
    # a truncated eigenspace: average over the retained states
    if r.random() < .7:
        screen_espace(espace, egs, r.choice([beta, 2.]), r.choice([1e-9, .05]))
    else:
        for s in espace.values():
            m = r.randint(1, s.eigvals.size)
            s.eigvals, s.eigvecs = s.eigvals[:m], s.eigvecs[:, :m]
    nu, nd, Z = np.zeros(n), np.zeros(n), 0.
    for q, s in espace.items():
        w = np.exp(-beta * (s.eigvals - egs))
        bu, bd = brute(s.eigvecs, n, *q)
        nu, nd, Z = nu + bu.dot(w), nd + bd.dot(w), Z + w.sum()
    a, b = get_occupation(espace, egs, beta, n)
    ctx.close(a, nu / Z, "average over the retained states (up)", atol=1e-10)
    ctx.close(b, nd / Z, "average over the retained states (down)", atol=1e-10)
    q = r.choice(list(espace))
    s = espace[q]
    x, y = get_evecs_occupation(s.eigvecs, s.states.up, s.states.dw, n)
    wx, wy = brute(s.eigvecs, n, *q)
    ctx.close(x, wx, "occupation of eigenvectors (up)", atol=1e-10)
    ctx.close(y, wy, "occupation of eigenvectors (down)", atol=1e-10)
    ctx.count("thermal")
    if n > 1:
        ctx.nontrivial(ctx.seed)


chk.main()
