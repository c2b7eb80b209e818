"""C12: the exactly built Green's function equals its Lehmann representation."""
import numpy as np

import edp
import gfs
import ref
from vlib import Check

chk = Check("C12", needs=("psparse",), omp=2,
            rule="Random Hamiltonians (all lattice kinds, spin-split or not, density, exchange and pair-hopping "
                 "interactions, mean-field counting, chemical potential), temperatures, site, spin; the complete eigenspace "
                 "is built by the library and evaluated on random complex frequencies. Oracle: Lehmann sum over an ensemble "
                 "diagonalised from the independent second-quantised reference. Non-trivial: at least two sites or an "
                 "interaction, and more than one visible pole.",
            assumptions=["numba-compiled functions behave as their Python source (numba is not installed)",
                         "beta times the energy offset of the reference stays within +-300 (double-precision exponentials)"],
            require={"frequencies": 1, "down_spin": 1, "up_spin": 1})

LATT = ("dense", "chain", "star", "sparse", "diag", "degenerate", "ring")


def model(ctx, nmax, hot=False):
    r, rs = ctx.rng, ctx.np
    n = r.choice([k for k in (1, 2, 2, 3, 3, 3, 4) if k <= nmax])
    spin = r.random() < .4
    H = ref.rand_H(rs, n, spin=spin)
    V = ref.rand_V(rs, n)
    ex = r.random()
    if ex < .3 and n > 1:
        V = {"U": V, "Jx": ref.rand_J(rs, n)}
        if ex < .2:
            V["Jp"] = ref.rand_J(rs, n)
    cfg = edp.rand_settings(rs, n)
    beta = r.choice([.1, 1., 5., 20., 100., 1e3, 1e4])
    ctx.note(n=n, H=H, V=V, cfg=cfg, beta=beta)
    return n, H, V, cfg, beta


def freqs(ctx, P, m=8):
    """Complex frequencies: both half planes, close to and far from the real axis, on and between poles."""
    r, rs = ctx.rng, ctx.np
    lo, hi = (P.min() - 1, P.max() + 1) if P.size else (-1., 1.)
    e, eta = [], []
    for k in range(m):
        x = rs.uniform(lo, hi)
        if P.size and k % 3 == 0:
            x = P[rs.randint(P.size)]
        e.append(x)
        eta.append(r.choice([1., -1.]) * r.choice([1e-3, 1e-2, .1, 1., 10.]))
    return np.array(e), np.array(eta)


def evaluate(gf, e, eta, scal):
    """One eta per call in the public signature gf(e, eta); both a scalar and an array eta are used."""
    if scal:
        return np.array([np.asarray(gf(float(x), float(y))).reshape(-1)[0] for x, y in zip(e, eta)])
    return np.asarray(gf(e, eta))


def near(ctx, got, want, eta, what, beta=0., mech=""):
    a = np.abs(eta)
    ctx.check(np.shape(got) == np.shape(want), what + ": one value per frequency", mech, got=np.shape(got), want=np.shape(want))
    err = np.abs(got - want)
    # level errors of 1e-12 shift poles and, multiplied by beta, the weights
    lim = 1e-9 + (1e-10 + 1e-12 * beta) / a + 1e-11 / a ** 2
    ctx.check(bool(np.all(err <= lim)), what, mech, worst=float(np.nanmax(err / lim)), got=got, want=want, eta=eta)


@chk.family("lehmann", quick=220, thorough=5000)
def lehmann(ctx):
    from edpyt.espace import build_espace, screen_espace  # noqa: F401
    from edpyt.gf_exact import build_gf_exact
    r, rs = ctx.rng, ctx.np
    n, H, V, cfg, beta = model(ctx, 4 if ctx.thorough else 3)
    with edp.settings(**cfg):
        espace, egs = build_espace(H, V)
        E = ref.Ensemble(H, V, n, **cfg)
        ctx.close(egs, E.egs, atol=1e-9, msg="ground-state energy")
        # a random history of builds on one eigenspace; nothing may depend on it
        frz = edp.Frozen(H=H, V=V if not isinstance(V, dict) else None,
                         **{"v%d%d" % q: s.eigvecs for q, s in espace.items()})
        fre = edp.Frozen(**{"e%d%d" % q: s.eigvals for q, s in espace.items()})
        for _ in range(3):
            pos, ispin = r.randrange(n), r.randrange(2)
            shift = r.choice([0., 0., 1., -1.]) * rs.rand() * min(200. / beta, 5.)
            kw = dict(pos=pos, ispin=ispin)
            if ispin == 0 and r.random() < .3:
                del kw["ispin"]
            gf = build_gf_exact(H, V, espace, beta, egs + shift, **kw)
            P, R = E.poles(beta, pos, pos, ispin)
            e, eta = freqs(ctx, P)
            got = evaluate(gf, e, eta, r.random() < .3)
            near(ctx, got, ref.lehmann(P, R, e + 1j * eta), eta, "equals the Lehmann sum (site %d spin %d)" % (pos, ispin), beta)
            ctx.check(bool(np.all(got.imag * np.sign(eta) <= 1e-12)), "causal sign", got=got, eta=eta)
            big = 1e7
            w = np.asarray(gf(0., big)).reshape(-1)[0] * (1j * big)
            ctx.close(w, 1., atol=1e-5, rtol=0, msg="spectral weight adds up to one")
            ctx.count("frequencies", e.size)
            ctx.count("up_spin" if ispin == 0 else "down_spin")
            if np.sum(np.abs(R) > 1e-6) > 1:
                ctx.nontrivial(ctx.family, ctx.seed)
            if r.random() < .5:                     # other frequencies in the arrays handed over before
                gf(e, eta)
                e += .25
                eta *= r.choice([.3, 1., 2.])
                near(ctx, np.asarray(gf(e, eta)), ref.lehmann(P, R, e + 1j * eta), eta, "frequencies changed in place", beta)
                ctx.count("in_place_frequencies")
        frz.verify(ctx)
        fre.verify(ctx)


@chk.family("spectral-function", quick=40, thorough=1500)
def spectral(ctx):
    """A(w) >= 0 on a dense grid and integrates to one; local moments of the spectrum."""
    from edpyt.espace import build_espace
    from edpyt.gf_exact import build_gf_exact
    r, rs = ctx.rng, ctx.np
    n, H, V, cfg, beta = model(ctx, 3)
    with edp.settings(**cfg):
        espace, egs = build_espace(H, V)
        pos, ispin = r.randrange(n), r.randrange(2)
        gf = build_gf_exact(H, V, espace, beta, egs, pos=pos, ispin=ispin)
    E = ref.Ensemble(H, V, n, **cfg)
    P, R = E.poles(beta, pos, pos, ispin)
    eta = r.choice([.05, .2])
    lo, hi = P.min() - 2000 * eta, P.max() + 2000 * eta
    w = np.concatenate([np.linspace(P.min() - 5, P.max() + 5, 4000)])
    A = -np.asarray(gf(w, eta)).imag / np.pi
    ctx.check(bool(np.all(A >= -1e-14)), "spectral function is nonnegative", worst=float(A.min()))
    # the weight inside the window is known analytically from the poles
    want = (R * (np.arctan((w[-1] - P) / eta) - np.arctan((w[0] - P) / eta)) / np.pi).sum()
    if np.max(np.diff(w)) < eta / 4:
        ctx.close(np.trapz(A, w), want, atol=2e-3, msg="integrated spectral function")
        ctx.count("integrals")
    # high-frequency expansion: M1 = <{[c,H],c+}>, compared with the reference poles
    z = 1j * 1e4
    m1 = (np.asarray(gf(0., 1e4)).reshape(-1)[0] * z - 1.) * z
    ctx.close(m1, (R * P).sum(), atol=5e-2, rtol=1e-3, msg="first moment of the spectrum")
    ctx.count("frequencies", w.size)
    ctx.count("up_spin" if ispin == 0 else "down_spin")
    ctx.nontrivial(ctx.family, ctx.seed)


@chk.family("closed-form", quick=30, thorough=800)
def closed(ctx):
    """Non-interacting resolvent and Hubbard atom (independent of any diagonalisation)."""
    from edpyt.espace import build_espace
    from edpyt.gf_exact import build_gf_exact
    r, rs = ctx.rng, ctx.np
    beta = r.choice([.5, 3., 30.])
    if ctx.idx % 2:
        n = r.choice([2, 3, 4]) if ctx.thorough else r.choice([2, 3])
        H = ref.rand_H(rs, n, spin=r.random() < .5)
        V = np.zeros((n, n))
        espace, egs = build_espace(H, V)
        H2 = H if H.ndim == 3 else np.array([H, H])
        for pos in range(n):
            for s in range(2):
                gf = build_gf_exact(H, V, espace, beta, egs, pos=pos, ispin=s)
                e, eta = rs.uniform(-4, 4, 6), r.choice([-1, 1]) * rs.uniform(.05, 2, 6)
                want = np.array([np.linalg.inv(np.eye(n) * z - H2[s])[pos, pos] for z in e + 1j * eta])
                near(ctx, np.asarray(gf(e, eta)), want, eta, "non-interacting resolvent", beta)
                ctx.count("frequencies", 6)
                ctx.count("down_spin" if s else "up_spin")
        ctx.nontrivial(ctx.family, ctx.seed)
    else:
        U, eu, ed = rs.uniform(0, 6), rs.normal(), rs.normal()
        H = np.array([[[eu]], [[ed]]])
        espace, egs = build_espace(H, np.array([[U]]))
        Z = 1 + np.exp(-beta * eu) + np.exp(-beta * ed) + np.exp(-beta * (eu + ed + U))
        for s, (es, eo) in enumerate([(eu, ed), (ed, eu)]):
            nopp = (np.exp(-beta * eo) + np.exp(-beta * (eu + ed + U))) / Z
            gf = build_gf_exact(H, np.array([[U]]), espace, beta, egs, pos=0, ispin=s)
            e, eta = rs.uniform(-4, 8, 6), rs.uniform(.05, 2, 6)
            z = e + 1j * eta
            near(ctx, np.asarray(gf(e, eta)), (1 - nopp) / (z - es) + nopp / (z - es - U), eta, "Hubbard atom", beta)
            ctx.count("frequencies", 6)
            ctx.count("down_spin" if s else "up_spin")
        ctx.nontrivial(ctx.family, ctx.seed)


@chk.family("history", quick=40, thorough=1200)
def history(ctx):
    """The model changes in the caller's arrays between builds; earlier functions stay what they were."""
    from edpyt.espace import build_espace
    from edpyt.gf_exact import build_gf_exact
    r = ctx.rng
    n, H, V, cfg, beta = model(ctx, 3)
    old = []
    for _ in range(4):
        with edp.settings(**cfg):
            espace, egs = build_espace(H, V)
            E = ref.Ensemble(H, V, n, **cfg)
            ctx.close(egs, E.egs, atol=1e-9, msg="ground-state energy of the changed model")
            for _ in range(2):
                pos, ispin, b = r.randrange(n), r.randrange(2), r.choice([beta, beta, 1., 7.])
                gf = build_gf_exact(H, V, espace, b, egs, pos=pos, ispin=ispin)
                P, R = E.poles(b, pos, pos, ispin)
                e, eta = freqs(ctx, P, 6)
                got = np.array(gf(e, eta))
                near(ctx, got, ref.lehmann(P, R, e + 1j * eta), eta, "equals the Lehmann sum of the changed model", b)
                old.append((gf, e, eta, got))
                ctx.count("frequencies", e.size)
                ctx.count("up_spin" if ispin == 0 else "down_spin")
        ctx.note(changed=gfs.change(ctx, H, V, cfg, n))
    for gf, e, eta, got in old:
        ctx.close(np.asarray(gf(e, eta)), got, "a function built earlier stays the same", atol=1e-12, rtol=1e-10)
    ctx.nontrivial(ctx.family, ctx.seed)


chk.main()
