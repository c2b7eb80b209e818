"""C04: spin exchange, pair hopping and charge-only sectors."""
import numpy as np

import edp
import ref
from vlib import Check

chk = Check("C04", needs=("psparse",),
            rule="Random symmetric exchange and pair-hopping matrices alone or together, with/without a density "
                 "interaction, one-body matrix, mu, particle-hole mode; fixed-(nup,ndw) sectors and charge-only sectors. "
                 "Oracle: operator strings on the full register. Charge-only spectra are compared with the union of the "
                 "spin-resolved ones computed by the library itself. Non-trivial: a coupling connects two basis states.",
            assumptions=["numba-compiled functions behave as their Python source (numba is not installed)",
                         "couplings below 1e-7 and diagonal couplings are dropped by design"])


def rand_int(ctx, n, what=None):
    rs = ctx.np
    what = ctx.rng.choice(["x", "p", "xp"]) if what is None else what
    V = {}
    u = rs.rand() < .7
    if u:
        V["U"] = ref.rand_V(rs, n)
    if "x" in what:
        V["Jx"] = ref.rand_J(rs, n)
    if "p" in what:
        V["Jp"] = ref.rand_J(rs, n)
    if rs.rand() < .2:
        for k in ("Jx", "Jp", "U"):
            V.setdefault(k, None)
    if V.get("Jx") is not None and V.get("Jp") is not None and rs.rand() < .4:
        V["Jp"] = V["Jx"] * ctx.rng.choice([1., 1. + 1e-3, 1. - 1e-5, -1.])   # (nearly) one and the same coupling
    return V, what + ("U" if u else "")


def guards(V):
    return {k: v for k, v in V.items() if v is not None}


@chk.family("sz", quick=80, thorough=1000)
def sz(ctx):
    from edpyt.build_mb_ham import build_mb_ham
    from edpyt.espace import build_empty_sector
    from edpyt.matvec_product import matvec_operator, todense
    rs = ctx.np
    n = ctx.rng.choice([2, 2, 3, 3, 4] + ([5] if ctx.thorough else []))
    H = ref.rand_H(rs, n, spin=rs.rand() < .4)
    V, what = rand_int(ctx, n)
    cfg = edp.rand_settings(rs, n)
    for nup in range(n + 1):
        for ndw in range(n + 1):
            ctx.note(n=n, nup=nup, ndw=ndw, H=H, V=V, cfg=cfg)
            sct = build_empty_sector(n, nup, ndw)
            g = edp.Frozen(H=H, **guards(V))
            with edp.settings(**cfg):
                ops = build_mb_ham(H, V, sct)
                M = np.asarray(todense(*ops))
            g.verify(ctx)
            want = ref.hamiltonian(H, V, ref.sector_basis(n, nup, ndw), n, **cfg)
            ctx.close(M, want, "Hamiltonian with %s" % what, atol=1e-10, rtol=1e-10)
            x = rs.normal(size=sct.d)
            ctx.close(matvec_operator(*ops)(x), want.dot(x), "matrix-free product with %s" % what, atol=1e-9)
            ctx.count("sectors")
            plain = ref.hamiltonian(H, {"U": V.get("U")}, ref.sector_basis(n, nup, ndw), n, **cfg)
            if (np.abs(want - plain) > 1e-9).any():
                ctx.nontrivial(n, nup, ndw, what, ctx.seed)
                ctx.count("coupled_sectors:" + what)
    ctx.sample(n=n, V=V, cfg=cfg)


@chk.family("single", quick=60, thorough=600)
def single(ctx):
    """One coupling between two distant sites: isolates signs and factors."""
    from edpyt.build_mb_ham import build_mb_ham
    from edpyt.espace import build_empty_sector
    from edpyt.matvec_product import todense
    n = ctx.rng.randint(2, 5)
    i, j = ctx.rng.sample(range(n), 2)
    J = np.zeros((n, n))
    J[i, j] = J[j, i] = ctx.np.uniform(.5, 2)
    key = ctx.rng.choice(["Jx", "Jp"])
    nup, ndw = ctx.rng.randint(1, n - 1), ctx.rng.randint(1, n - 1)
    V = {key: J}
    if ctx.rng.random() < .5:
        V["U"] = np.zeros((n, n))
    H = np.zeros((n, n))
    ctx.note(n=n, nup=nup, ndw=ndw, V=V)
    with edp.settings():
        M = np.asarray(todense(*build_mb_ham(H, V, build_empty_sector(n, nup, ndw))))
    want = ref.hamiltonian(H, V, ref.sector_basis(n, nup, ndw), n)
    ctx.close(M, want, "Hamiltonian of a single %s coupling" % key, atol=1e-12)
    ctx.nontrivial(n, nup, ndw, i, j, key)


@chk.family("charge", quick=90, thorough=800)
def charge(ctx):
    """Charge-only sectors: dense operator against the reference."""
    from edpyt.build_mb_ham import build_mb_ham
    from edpyt.espace import build_empty_sector
    from edpyt.matvec_product import matvec_operator, todense
    rs = ctx.np
    n = ctx.rng.choice([1, 2, 2, 3] + ([4] if ctx.thorough else []))
    H = ref.rand_H(rs, n, kind="diag", spin=rs.rand() < .6)
    if ctx.rng.random() < .35:
        V, what = ref.rand_V(rs, n), "U"
    else:
        V, what = rand_int(ctx, n)
    cfg = edp.rand_settings(rs, n)
    for N in range(2 * n + 1):
        ctx.note(n=n, N=N, H=H, V=V, cfg=cfg)
        sct = build_empty_sector(n, N)
        g = edp.Frozen(H=H, **(guards(V) if isinstance(V, dict) else {"V": V}))
        with edp.settings(**cfg):
            ops = build_mb_ham(H, V, sct)
            M = np.asarray(todense(*ops))
        g.verify(ctx)
        want = ref.hamiltonian(H, V, ref.charge_basis(n, N), n, hop=False, **cfg)
        ctx.close(M, want, "charge-only Hamiltonian with %s" % what, atol=1e-10, rtol=1e-10)
        x = rs.normal(size=sct.d)
        ctx.close(matvec_operator(*ops)(x), want.dot(x), "matrix-free product with %s" % what, atol=1e-9)
        ctx.count("charge_sectors")
        if sct.d > 1:
            ctx.nontrivial(n, N, what, ctx.seed)
    ctx.sample(n=n, H=H, V=V, cfg=cfg)


@chk.family("wide", quick=24, thorough=200)
def wide(ctx):
    """Charge-only and spin-resolved sectors with few particles or holes on many sites."""
    from edpyt.build_mb_ham import build_mb_ham
    from edpyt.espace import build_empty_sector
    from edpyt.matvec_product import todense
    r, rs = ctx.rng, ctx.np
    n = r.randint(5, 16) if ctx.idx % 2 else r.randint(8, 16)
    two = n <= 9
    H = ref.rand_H(rs, n, kind="diag", spin=rs.rand() < .6)
    if r.random() < .5:
        V, what = ref.rand_V(rs, n), "U"
    else:
        V, what = rand_int(ctx, n)
    cfg = edp.rand_settings(rs, n)
    if ctx.idx % 3:
        N = r.choice([1, 2, 2, 2 * n - 1, 2 * n - 2]) if two else r.choice([1, 2 * n - 1])
        q, basis = (N,), ref.charge_basis(n, N)
    else:
        q = r.choice([(1, 1), (1, n - 1), (n - 1, 1), (n, 1), (1, 0), (n - 1, n)] if two else [(1, 0), (0, 1), (n, n - 1), (n - 1, n), (n, 1)])
        basis = ref.sector_basis(n, *q)
    ctx.note(n=n, qns=q, H=H, V=V, cfg=cfg)
    with edp.settings(**cfg):
        M = np.asarray(todense(*build_mb_ham(H, V, build_empty_sector(n, *q))))
    want = ref.hamiltonian(H, V, basis, n, hop=len(q) == 2, **cfg)
    ctx.close(M, want, "Hamiltonian of %d sites, sector %s, with %s" % (n, q, what), atol=1e-9, rtol=1e-9)
    ctx.count("wide_sectors")
    ctx.nontrivial(n, q, what, ctx.seed)


@chk.family("union", quick=36, thorough=300)
def union(ctx):
    """Spectrum per charge = union of the spin-resolved spectra (both from the library)."""
    from edpyt.espace import build_espace
    rs = ctx.np
    n = ctx.rng.choice([1, 2, 2, 3])
    H = ref.rand_H(rs, n, kind="diag", spin=rs.rand() < .6)
    V, what = rand_int(ctx, n) if ctx.rng.random() < .7 else (ref.rand_V(rs, n), "U")
    cfg = edp.rand_settings(rs, n)
    ctx.note(n=n, H=H, V=V, cfg=cfg)
    with edp.settings(**cfg):
        sz_space, egs = build_espace(H, V)
        n_space, egs_n = build_espace(H, V, symmetry="N")
    ctx.eq(sorted(n_space), [(N,) for N in range(2 * n + 1)], "charge sectors")
    ctx.close(egs_n, egs, "ground-state energy", atol=1e-9)
    for N in range(2 * n + 1):
        u = np.sort(np.concatenate([s.eigvals for (a, b), s in sz_space.items() if a + b == N]))
        ctx.close(np.sort(n_space[(N,)].eigvals), u, "spectrum of charge %d (%s)" % (N, what), atol=1e-9)
        ctx.count("charge_spectra")
    ctx.nontrivial(n, what, ctx.seed)


chk.main()
