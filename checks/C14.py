"""C14: every element of the exact and of the Lanczos matrix Green's function."""
import numpy as np

import edp
import gfs
import ref
from vlib import Check

chk = Check("C14", needs=("psparse", "continued_fraction"), omp=2,
            rule="Random Hamiltonians (dense to completely decoupled), temperatures and, for the Lanczos builder, truncations "
                 "of the eigenspace; all site pairs, both spins, both representations, separate parts, element access above "
                 "and below the diagonal. Oracle: Lehmann sums of <<c_i; c+_j>> over the retained states with operators and "
                 "arrival spectra of the reference model; (z-H)^-1 without interaction. Non-trivial: two or more sites.",
            assumptions=["numba-compiled functions behave as their Python source (numba is not installed)",
                         "the exact builder is called with complete eigenspaces, as it requires"],
            require={"elements": 1, "down_spin": 1, "separate": 1, "cf": 1, "sp": 1, "decoupled": 1})


def element_bound(R, i, j, s, z, n):
    if n < 4:
        return np.zeros(z.size)
    return R.slack((i, j), s, z) + (R.slack((i,), s, z) + R.slack((j,), s, z) if i != j else 0)


@chk.family("lanczos", quick=40, thorough=1300)
def lanczos(ctx):
    from edpyt.espace import build_espace
    from edpyt.gf2_lanczos import build_gf2_lanczos
    from edpyt.gf_lanczos import build_gf_lanczos
    r = ctx.rng
    n, H, V, cfg, beta = gfs.model(ctx, (1, 2, 2, 3, 3, 3, 4), betas=(.1, 1., 5., 20., 100., 1e3))
    with edp.settings(**cfg):
        espace, egs = build_espace(H, V)
        ctx.note(truncation=gfs.truncate(ctx, espace, egs, beta, n, 30 if n < 4 else 4))
        R = gfs.Retained(H, V, n, espace, beta, egs, cfg)
        fz = edp.Frozen(H=H, **(V if isinstance(V, dict) else {"V": V}))
        ispin, rep, sep = r.randrange(2), r.choice(["cf", "sp"]), r.random() < .4
        kw = dict(ispin=ispin, repr=rep)
        if sep:
            kw["separate"] = True
        ctx.note(**kw)
        G = build_gf2_lanczos(H, V, espace, beta, egs, **kw)
        e, eta = gfs.freqs(ctx, R.poles(0, 0, ispin)[0], 6, (1e-2, .1, 1., 10.) if n < 4 else (.1, 1., 5., 20.))
        z = e + 1j * eta
        parts = list(zip("eh", G(e, eta))) if sep else [("both", G(e, eta))]
        tot = sum(M for _, M in parts)
        ctx.check(tot.shape == (n, n, e.size), "one matrix per frequency", shape=tot.shape)
        one = None
        # all elements taken out first, in any order, and evaluated afterwards
        pairs = [(i, j) for i in range(n) for j in range(n)]
        r.shuffle(pairs)
        taken = {p: G[p] for p in pairs}
        r.shuffle(pairs)
        taken = {p: np.array(np.broadcast_to(np.asarray(taken[p](e, eta)), e.shape)) for p in pairs}
        for i in range(n):
            for j in range(n):
                ex = element_bound(R, i, j, ispin, z, n)
                for part, M in parts:
                    P, W = R.poles(i, j, ispin, part)
                    gfs.near(ctx, M[i, j], ref.lehmann(P, W, z), eta, "Lanczos element %d,%d part %s" % (i, j, part), 4 * beta, extra=ex)
                P, W = R.poles(i, j, ispin)
                want = ref.lehmann(P, W, z)
                gfs.near(ctx, tot[i, j], want, eta, "parts of element %d,%d add up" % (i, j), 4 * beta, extra=2 * ex)
                # access to one element as a function
                f = np.broadcast_to(np.asarray(G[i, j](e, eta)), e.shape)
                gfs.near(ctx, f, tot[i, j], eta, "element %d,%d taken out of the matrix" % (i, j), 4 * beta)
                gfs.near(ctx, taken[i, j], tot[i, j], eta, "element %d,%d taken out before the others" % (i, j), 4 * beta)
                ctx.count("elements")
                if not np.any(np.abs(W) > 1e-12) and i != j:
                    ctx.count("decoupled")
            if i == r.randrange(n) and one is None:
                one = build_gf_lanczos(H, V, espace, beta, egs, pos=i, ispin=ispin, repr=rep)
                gfs.near(ctx, np.broadcast_to(np.asarray(one(e, eta)), e.shape), tot[i, i], eta, "diagonal element is the single-site function", 4 * beta)
        ctx.close(tot, tot.transpose(1, 0, 2), "symmetric in the site indices", atol=1e-10)
        if r.random() < .5:                         # other frequencies in the arrays handed over before
            f = G[0, n - 1]
            f(e, eta)
            e += .25
            eta *= r.choice([.3, 1., 2.])
            for x in (G, f):
                a, b = (v if sep else (v,) for v in (x(e, eta), x(e.copy(), eta.copy())))
                for u, w in zip(a, b):
                    ctx.close(np.asarray(u), np.asarray(w), "frequencies changed in place", atol=1e-12, rtol=1e-9)
            ctx.count("in_place_frequencies")
        for q, s in espace.items():
            ctx.check(np.array_equal(s.eigvals, R.states[q][0]) and np.array_equal(s.eigvecs, R.states[q][1]), "the eigenspace is left as it was", sector=q)
        fz.verify(ctx)
    ctx.count(rep)
    ctx.count("separate", sep)
    ctx.count("down_spin" if ispin else "up_spin")
    if n > 1:
        ctx.nontrivial(ctx.seed)


@chk.family("exact", quick=50, thorough=1200)
def exact(ctx):
    from edpyt.espace import build_espace
    from edpyt.gf2_exact import build_gf2_exact
    from edpyt.gf_exact import build_gf_exact
    r, rs = ctx.rng, ctx.np
    n, H, V, cfg, beta = gfs.model(ctx, (1, 2, 2, 3), betas=(.1, 1., 5., 20., 100., 1e3))
    with edp.settings(**cfg):
        espace, egs = build_espace(H, V)
        before = {q: (s.eigvals.copy(), s.eigvecs.copy()) for q, s in espace.items()}
        E = ref.Ensemble(H, V, n, **cfg)
        shift = r.choice([0., 1., -1.]) * rs.rand() * min(200. / beta, 5.)
        for ispin in (0, 1):
            G = build_gf2_exact(H, V, espace, beta, egs + shift, ispin=ispin)
            e, eta = gfs.freqs(ctx, E.poles(beta, 0, 0, ispin)[0], 6)
            M = G(e, eta)
            ctx.check(M.shape == (n, n, e.size), "one matrix per frequency", shape=M.shape)
            for i in range(n):
                for j in range(n):
                    P, W = E.poles(beta, i, j, ispin)
                    gfs.near(ctx, M[i, j], ref.lehmann(P, W, e + 1j * eta), eta, "exact element %d,%d spin %d" % (i, j, ispin), beta)
                    ctx.count("elements")
                    if i != j and not np.any(np.abs(W) > 1e-12):
                        ctx.count("decoupled")
            if r.random() < .5:
                x, y = e.copy(), eta.copy()
                G(x, y)
                x += .25
                ctx.close(G(x, y), G(x.copy(), y.copy()), "frequencies changed in place", atol=1e-12, rtol=1e-9)
                ctx.count("in_place_frequencies")
            p = r.randrange(n)
            one = build_gf_exact(H, V, espace, beta, egs, pos=p, ispin=ispin)
            gfs.near(ctx, np.asarray(one(e, eta)), M[p, p], eta, "diagonal element is the single-site function", beta)
            big = G(np.zeros(1), 1e7)[..., 0] * 1e7j
            ctx.close(big, np.eye(n), "anticommutator {c_i, c+_j} as total weight", atol=1e-4, rtol=0)
            ctx.count("down_spin" if ispin else "up_spin")
        for q, s in espace.items():
            ctx.check(np.array_equal(s.eigvals, before[q][0]) and np.array_equal(s.eigvecs, before[q][1]), "the eigenspace is left as it was", sector=q)
    if n > 1:
        ctx.nontrivial(ctx.seed)


@chk.family("resolvent", quick=10, thorough=300)
def resolvent(ctx):
    """No interaction: both builders give (z - H)^-1; includes blocks that do not couple."""
    from edpyt.espace import build_espace
    from edpyt.gf2_exact import build_gf2_exact
    from edpyt.gf2_lanczos import build_gf2_lanczos
    r, rs = ctx.rng, ctx.np
    n = r.choice([2, 2, 3, 3])
    spin = r.random() < .5
    H = ref.rand_H(rs, n, spin=spin, kind=r.choice(["dense", "sparse", "diag", "degenerate", "chain"]))
    V = np.zeros((n, n))
    beta = r.choice([.5, 3., 30.])
    ctx.note(H=H, beta=beta)
    espace, egs = build_espace(H, V)
    H2 = H if spin else np.array([H, H])
    e, eta = rs.uniform(-4, 4, 6), rs.choice([-1., 1.], 6) * rs.uniform(.05, 2, 6)
    for s in (0, 1):
        want = np.stack([np.linalg.inv(np.eye(n) * z - H2[s]) for z in e + 1j * eta], -1)
        ex = build_gf2_exact(H, V, espace, beta, egs, ispin=s)(e, eta)
        ctx.close(ex, want, "exact builder gives the resolvent", atol=1e-7, rtol=0)
        for rep in ("cf", "sp"):
            la = build_gf2_lanczos(H, V, espace, beta, egs, ispin=s, repr=rep)(e, eta)
            ctx.close(la, want, "Lanczos builder gives the resolvent", atol=1e-6, rtol=0)
            ctx.count(rep)
        ctx.count("elements", 2 * n * n)
        ctx.count("down_spin" if s else "up_spin")
        ctx.count("decoupled", int((np.abs(want).max(-1) < 1e-12).sum()))
    ctx.nontrivial(ctx.seed)


@chk.family("weak", quick=24, thorough=300)
def weak(ctx):
    """Sites that hardly couple: a small element beside large ones is still resolved."""
    from edpyt.espace import build_espace
    from edpyt.gf2_exact import build_gf2_exact
    from edpyt.gf2_lanczos import build_gf2_lanczos
    r, rs = ctx.rng, ctx.np
    t = r.choice([-1., 1.]) * 10. ** rs.uniform(-7, -3)
    H = np.diag(rs.normal(size=2)) + t * np.array([[0., 1.], [1., 0.]])
    beta = r.choice([.5, 3., 30.])
    e, eta = rs.uniform(-3, 3, 6), rs.choice([-1., 1.], 6) * rs.uniform(.2, 2, 6)
    ctx.note(H=H, beta=beta)
    espace, egs = build_espace(H, np.zeros((2, 2)))
    want = np.stack([np.linalg.inv(np.eye(2) * z - H) for z in e + 1j * eta], -1)
    for rep in ("cf", "sp"):
        la = build_gf2_lanczos(H, np.zeros((2, 2)), espace, beta, egs, repr=rep)(e, eta)
        ctx.close(la, want, "Lanczos elements between weakly coupled sites", atol=2e-9, rtol=1e-6)
    ex = build_gf2_exact(H, np.zeros((2, 2)), espace, beta, egs)(e, eta)
    ctx.close(ex, want, "exact elements between weakly coupled sites", atol=2e-9, rtol=1e-6)
    ctx.count("weak")
    ctx.nontrivial(ctx.seed)

@chk.family("history", quick=24, thorough=400)
def history(ctx):
    """The model changes in the caller's arrays between builds; earlier matrices stay what they were."""
    from edpyt.espace import build_espace
    from edpyt.gf2_exact import build_gf2_exact
    from edpyt.gf2_lanczos import build_gf2_lanczos
    r, rs = ctx.rng, ctx.np
    n, H, V, cfg, beta = gfs.model(ctx, (2, 2, 3), betas=(.5, 3., 20.))
    old = []
    for _ in range(3):
        with edp.settings(**cfg):
            espace, egs = build_espace(H, V)
            E = ref.Ensemble(H, V, n, **cfg)
            ispin, rep = r.randrange(2), r.choice(["cf", "sp"])
            e, eta = rs.uniform(-5, 5, 6), rs.choice([-1., 1.], 6) * rs.uniform(.1, 2, 6)
            want = np.array([[ref.lehmann(*E.poles(beta, i, j, ispin), e + 1j * eta) for j in range(n)] for i in range(n)])
            fs = [build_gf2_exact(H, V, espace, beta, egs, ispin=ispin)]
            if n < 3 or r.random() < .4:
                fs.append(build_gf2_lanczos(H, V, espace, beta, egs, ispin=ispin, repr=rep))
                ctx.count(rep)
            for f in fs:
                got = np.array(f(e, eta))
                ctx.close(got, want, "matrix of the changed model", atol=1e-6, rtol=0)
                old.append((f, e, eta, got))
                ctx.count("elements", n * n)
            ctx.count("down_spin", ispin)
        ctx.note(changed=gfs.change(ctx, H, V, cfg, n))
    for f, e, eta, got in old:
        ctx.close(np.asarray(f(e, eta)), got, "a matrix built earlier stays the same", atol=1e-12, rtol=1e-10)
    ctx.nontrivial(ctx.seed)


chk.main()
