"""C08: non-interacting limit and symmetries of the spectrum."""
import itertools

import numpy as np

import edp
import ref
from vlib import Check

chk = Check("C08", needs=("psparse",), omp=2,
            rule="Metamorphic monitors on the spectra the library computes: sums of one-particle levels without "
                 "interaction, relabelled sites, exchanged spins, particle-hole exchange, shifts of the level energies, "
                 "charge-only against spin-resolved. Non-trivial: the one-body matrix is not a multiple of the identity.",
            assumptions=["numba-compiled functions behave as their Python source (numba is not installed)"])


def sums(e, p):
    """Sorted energies of p particles on the levels e."""
    return np.array([sum(c) for c in itertools.combinations(e, p)]) if p else np.zeros(1)


def free(eu, ed, nup, ndw):
    return np.sort((sums(eu, nup)[:, None] + sums(ed, ndw)[None, :]).ravel())


def spectra(es):
    return {tuple(int(i) for i in q): np.sort(np.asarray(s.eigvals)) for q, s in es.items()}


def compare(ctx, got, want, what, tol=1e-8):
    ctx.eq(sorted(got), sorted(want), what + ": sectors")
    for q in want:
        s = 1. + np.abs(want[q]).max()
        ctx.close(got[q], want[q], "%s: sector %s" % (what, q), atol=tol * s, rtol=0)
        ctx.count("sector_spectra")


@chk.family("onebody", quick=160, thorough=1500)
def onebody(ctx):
    """Without interaction: sums of one-particle levels, through the many-body machinery."""
    from edpyt.espace import build_espace
    r, rs = ctx.rng, ctx.np
    n = r.choice([1, 2, 3, 3, 4, 4] + ([5] if ctx.thorough else []))
    H = ref.rand_H(rs, n, spin=r.random() < .5)
    H, lay = edp.layout(rs, H)
    mu = r.choice([0., 0., rs.normal()])
    V = np.zeros((n, n)) if r.random() < .7 else {"U": r.choice([None, np.zeros((n, n))])}
    ctx.note(n=n, H=np.array(H), mu=mu, layout=lay)
    with edp.settings(mu=mu):
        es, egs = build_espace(H, V)
    H2 = np.array(H) if H.ndim == 3 else np.array([H, H])
    eu, ed = [np.linalg.eigvalsh(h) + mu for h in H2]
    want = {(u, d): free(eu, ed, u, d) for u in range(n + 1) for d in range(n + 1)}
    compare(ctx, spectra(es), want, "non-interacting spectrum")
    ctx.close(egs, min(w[0] for w in want.values()), "ground-state energy", atol=1e-8)
    if np.ptp(eu) > 1e-9 or np.ptp(ed) > 1e-9:
        ctx.nontrivial(n, ctx.seed)
    ctx.sample(n=n, H=np.array(H), mu=mu)


@chk.family("levels", quick=40, thorough=260)
def levels(ctx):
    """The spectrum builder for non-interacting particles, any number of levels."""
    import edpyt.build_mb_ham as bm
    from edpyt.espace import build_non_interacting_espace
    r, rs = ctx.rng, ctx.np
    n = r.choice([1, 2, 3, 4, 5, 6])
    n = {0: 8, 1: 9, 2: 7, 3: 10}.get(ctx.idx, n) if not ctx.thorough else {0: 9}.get(ctx.idx, r.choice([n, n, n, 7, 8, 10]))
    dry = n > 8 and not (ctx.thorough and ctx.idx == 0)      # only watch the calls
    ek = rs.choice([rs.normal(size=n), np.round(rs.normal(size=n)), np.sort(rs.rand(n))][r.randrange(3)], n, replace=False) \
        if n > 1 else rs.normal(size=1)
    ek = np.ascontiguousarray(ek)
    ctx.note(n=n, ek=ek)
    g = edp.Frozen(ek=ek)
    seen = []
    orig = bm.add_onsites

    def watch(diags, ints, *a):
        seen.append((np.shape(diags)[-1], np.shape(ints)[-1]))
        return a[2].fill(0.) if dry else orig(diags, ints, *a)
    bm.add_onsites = watch
    try:
        es, egs = build_non_interacting_espace(ek)
    finally:
        bm.add_onsites = orig
    g.verify(ctx)
    for a in seen:
        # the compiled loop shifts a state by up to this many bits
        ctx.check(max(a) <= 64, "shift count of the compiled on-site sum stays within the word", sizes=a)
        ctx.count("onsite_calls_watched")
    ctx.nontrivial(n, ctx.seed)
    if dry and seen:
        return
    want = {(u, d): free(ek, ek, u, d) for u in range(n + 1) for d in range(n + 1)}
    ctx.eq(list(es.keys()), sorted(want), "sectors, in order")
    for q, sct in es.items():
        ctx.check(bool(np.all(np.diff(sct.eigvals) >= 0)), "ascending eigenvalues")
        ctx.eq(sct.d, len(want[q]), "dimension")
    compare(ctx, spectra(es), want, "non-interacting builder", 1e-10)
    ctx.close(egs, min(w[0] for w in want.values()), "ground-state energy", atol=1e-10)
    ctx.sample(n=n, ek=ek)


def model(ctx, n, J=True):
    r, rs = ctx.rng, ctx.np
    H = ref.rand_H(rs, n, spin=r.random() < .5)
    V = ref.rand_V(rs, n)
    if J and n > 1 and r.random() < .35:
        V = {"U": V}
        for k in r.sample(["Jx", "Jp"], r.randint(1, 2)):
            V[k] = ref.rand_J(rs, n)
    cfg = edp.rand_settings(rs, n)
    ctx.note(n=n, H=H, V=V, cfg=cfg)
    return H, V, cfg


def vmap(V, f):
    return {k: None if v is None else f(v) for k, v in V.items()} if isinstance(V, dict) else f(V)


def solve(ctx, H, V, cfg, **kw):
    from edpyt.espace import build_espace
    with edp.settings(**cfg):
        es, egs = build_espace(np.ascontiguousarray(H), V, **kw)
    s = spectra(es)
    ctx.close(egs, min(x[0] for x in s.values()), "ground-state energy", atol=1e-9)
    return s


@chk.family("relabel", quick=110, thorough=1000)
def relabel(ctx):
    n = ctx.rng.choice([2, 3, 3, 4])
    H, V, cfg = model(ctx, n)
    p = ctx.np.permutation(n)
    ctx.note(permutation=p)
    a = solve(ctx, H, V, cfg)
    cfg2 = dict(cfg, z=None if cfg["z"] is None else cfg["z"][p])
    b = solve(ctx, H[..., p[:, None], p[None, :]], vmap(V, lambda v: np.ascontiguousarray(v[p[:, None], p[None, :]])), cfg2)
    compare(ctx, b, a, "relabelled sites")
    ctx.nontrivial(n, tuple(p), ctx.seed)
    ctx.sample(n=n, permutation=p)


@chk.family("spinswap", quick=110, thorough=1000)
def spinswap(ctx):
    n = ctx.rng.choice([1, 2, 3, 3, 4])
    H, V, cfg = model(ctx, n)
    a = solve(ctx, H, V, cfg)
    b = solve(ctx, H[::-1] if H.ndim == 3 else H, V, cfg)
    compare(ctx, {(d, u): e for (u, d), e in b.items()}, a, "exchanged spins")
    ctx.nontrivial(n, H.ndim, ctx.seed)


@chk.family("particlehole", quick=110, thorough=1000)
def particlehole(ctx):
    """Bipartite hopping, zero level energies, particle-hole symmetric interaction."""
    r, rs = ctx.rng, ctx.np
    n = r.choice([2, 3, 3, 4])
    A = rs.rand(n) < .5
    H = np.array([rs.normal(size=(n, n)) * (A[:, None] != A[None, :]) for _ in range(2)])
    H = H + H.transpose(0, 2, 1)
    if r.random() < .5:
        H = H[0]
    V = ref.rand_V(rs, n)
    cfg = dict(hfmode=True, mu=0., z=None if r.random() < .7 else np.ones(n))
    ctx.note(n=n, H=H, V=V, cfg=cfg)
    a = solve(ctx, H, V, cfg)
    compare(ctx, {(n - u, n - d): e for (u, d), e in a.items()}, a, "particle-hole exchange")
    if H.any():
        ctx.nontrivial(n, ctx.seed)


@chk.family("shift", quick=60, thorough=500)
def shift(ctx):
    """A common level shift, or the chemical potential setting, moves a sector by shift times its particles."""
    r, rs = ctx.rng, ctx.np
    n = r.choice([1, 2, 3, 4])
    H, V, cfg = model(ctx, n)
    x = rs.normal()
    a = solve(ctx, H, V, cfg)
    if r.random() < .5:
        b = solve(ctx, H + x * np.eye(n), V, cfg)
    else:
        b = solve(ctx, H, V, dict(cfg, mu=cfg["mu"] + x))
    compare(ctx, b, {q: e + x * sum(q) for q, e in a.items()}, "level shift")
    ctx.nontrivial(n, ctx.seed)


@chk.family("charge", quick=60, thorough=500)
def charge(ctx):
    """Sites without hopping: charge sectors are unions of the spin-resolved ones; also without interaction."""
    r, rs = ctx.rng, ctx.np
    n = r.choice([1, 2, 2, 3])
    H = ref.rand_H(rs, n, "diag", spin=r.random() < .5)
    V = np.zeros((n, n)) if r.random() < .3 else ref.rand_V(rs, n)
    cfg = edp.rand_settings(rs, n)
    ctx.note(n=n, H=H, V=V, cfg=cfg)
    a, b = solve(ctx, H, V, cfg), solve(ctx, H, V, cfg, symmetry="N")
    want = {(N,): np.sort(np.concatenate([e for q, e in a.items() if sum(q) == N])) for N in range(2 * n + 1)}
    compare(ctx, b, want, "charge-only spectrum")
    ctx.nontrivial(n, ctx.seed)


chk.main()
