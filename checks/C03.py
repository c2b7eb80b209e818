"""C03: the assembled many-body Hamiltonian equals its second-quantised definition."""
import numpy as np

import edp
import ref
from vlib import Check

chk = Check("C03", needs=("psparse",),
            rule="Random one-body matrices (dense, chain, ring, star, sparse, diagonal, degenerate; one or two spins; "
                 "several memory layouts), interaction matrices (on-site, full, partial, attractive), global mu, "
                 "particle-hole mode and reference charges; every sector of small systems, random sectors of larger ones. "
                 "Oracle: operator strings applied to bit registers one by one. Non-trivial: sector dimension > 1.",
            assumptions=["numba-compiled functions behave as their Python source (numba is not installed); prange loops "
                         "are run in shuffled order", "hopping amplitudes below 1e-7 are dropped by design"])


def one(ctx, n, nup, ndw, H, V, cfg, kind):
    from edpyt.build_mb_ham import build_mb_ham
    from edpyt.espace import build_empty_sector
    from edpyt.matvec_product import todense
    ctx.note(n=n, nup=nup, ndw=ndw, H=H, V=V, cfg=cfg, layout=kind)
    sct = build_empty_sector(n, nup, ndw)
    guard = edp.Frozen(H=H, V=V, z=cfg["z"], up=sct.states.up, dw=sct.states.dw)
    with edp.settings(**cfg):
        ops = build_mb_ham(H, V, sct)
        M = np.asarray(todense(*ops))
    guard.verify(ctx)
    want = ref.hamiltonian(H, V, ref.sector_basis(n, nup, ndw), n, **cfg)
    ctx.close(M, want, "many-body Hamiltonian", atol=1e-10, rtol=1e-10)
    ctx.close(M, M.T, "symmetric", atol=1e-12, rtol=1e-12)
    ctx.count("matrix_elements", M.size)
    ctx.count("offdiagonal_nonzeros", int((np.abs(want - np.diag(np.diag(want))) > 0).sum()))
    if len(want) > 1:
        ctx.nontrivial(n, nup, ndw, ctx.seed)


def inputs(ctx, n):
    rs = ctx.np
    H = ref.rand_H(rs, n, spin=rs.rand() < .5, scale=rs.choice([1., 1., 1e-3, 50.]), close=.2)
    if rs.rand() < .25:
        # separated scales: deep levels next to weak hoppings (all well above the documented 1e-7)
        k = np.arange(n)
        f = 10. ** rs.uniform(-4, 0, (n, n))
        f = np.triu(f, 1) + np.triu(f, 1).T
        np.fill_diagonal(f, 1.)
        H = H / max(np.abs(H).max(), 1e-3) * f
        H[..., k, k] += rs.uniform(-1, 1, n) * rs.choice([1., 100., 1e4])
        H = np.where((np.abs(H) < 1e-6), 0., H)
        ctx.count("separated_scales")
    V = ref.rand_V(rs, n)
    cfg = edp.rand_settings(rs, n)
    H, kind = edp.layout(rs, H)
    return H, V, cfg, kind


@chk.family("all_sectors", quick=72, thorough=700)
def all_sectors(ctx):
    n = [1, 2, 2, 3, 3, 3, 4, 4][ctx.idx % 8]
    H, V, cfg, kind = inputs(ctx, n)
    for nup in range(n + 1):
        for ndw in range(n + 1):
            one(ctx, n, nup, ndw, H, V, cfg, kind)
            ctx.count("sectors")
    ctx.sample(n=n, H=H, V=V, cfg=cfg, layout=kind)


@chk.family("large", quick=60, thorough=900)
def large(ctx):
    n = ctx.rng.choice([5, 5, 6, 7])
    H, V, cfg, kind = inputs(ctx, n)
    while True:
        nup, ndw = ctx.rng.randint(0, n), ctx.rng.randint(0, n)
        if ref.basis(n, nup).__len__() * ref.basis(n, ndw).__len__() <= (441 if ctx.thorough else 230):
            break
    one(ctx, n, nup, ndw, H, V, cfg, kind)
    ctx.count("sectors")


@chk.family("long_hop", quick=50, thorough=500)
def long_hop(ctx):
    """A single hopping amplitude between two arbitrary sites: isolates the string sign."""
    n = ctx.rng.randint(3, 7)
    i, j = ctx.rng.sample(range(n), 2)
    H = np.zeros((2, n, n))
    s = ctx.rng.randint(0, 1)
    H[s, i, j] = H[s, j, i] = ctx.np.normal() + 2.
    nup, ndw = ctx.rng.randint(1, n - 1), ctx.rng.randint(0, 2)
    if s == 1:
        nup, ndw = ndw, nup
    one(ctx, n, nup, ndw, H, np.zeros((n, n)), dict(hfmode=False, mu=0., z=None), "C")
    ctx.count("sectors")


@chk.family("sequence", quick=20, thorough=200)
def sequence(ctx):
    """The same caller arrays assembled repeatedly, with changes in between, and after an error."""
    from edpyt.build_mb_ham import build_mb_ham
    from edpyt.espace import build_empty_sector
    rs = ctx.np
    n = ctx.rng.randint(2, 4)
    H = ref.rand_H(rs, n, spin=rs.rand() < .6, close=.2)
    V = ref.rand_V(rs, n)
    cfg = edp.rand_settings(rs, n)
    for k in range(5):
        if ctx.rng.random() < .3:
            try:
                with edp.settings(**cfg):
                    build_mb_ham(H, "not an interaction",
                                 build_empty_sector(n, 1, 1))
            except Exception:
                ctx.count("failed_builds")
        one(ctx, n, ctx.rng.randint(0, n), ctx.rng.randint(0, n), H, V, cfg, "C")
        ctx.check(H.flags.writeable, "the caller can still write to H")
        i, j = ctx.rng.randrange(n), ctx.rng.randrange(n)
        d = rs.normal()
        H[..., i, j] += d
        if i != j:
            H[..., j, i] += d
        V[i, i] += rs.normal()
        ctx.count("sectors")
        if k == 2:
            cfg = edp.rand_settings(rs, n)


chk.main()
