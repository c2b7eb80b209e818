"""C17: the occupation obtained from a Green's function equals the thermal filling."""
import numpy as np
from scipy.constants import e as QE, k as KB

import edp
from vlib import Check

chk = Check("C17", needs=(), omp=1,
            rule="Random sums of simple poles (clustered, degenerate, at the chemical potential, far away), temperatures 5 K to "
                 "10^5 K, 5 to 150 poles, scalar, vector and matrix valued functions, scalar and array chemical potentials; a "
                 "monitor inside the function records every argument. Oracle: Fermi-weighted pole sum; the truncation error is "
                 "granted as computed from an independent continued fraction of the Fermi function (contour) or from the third "
                 "moment (Matsubara). Non-trivial: at least two poles of which one is within a few kT of the potential.",
            assumptions=["the contour result is compared with weights and poles bounded by 1e3 eV (the routine probes G at 1e10)"],
            require={"fillings": 1, "other_weights": 1, "wide_spectra": 1, "array_mu": 1, "array_gf": 1, "matsubara": 1, "evaluations": 1})


def fermi(x):
    x = np.asarray(x, float)
    return .5 * (1 - np.tanh(x / 2))


def fermi_cf(x, M):
    """Fermi function by the continued fraction of tanh truncated after M levels."""
    x = np.asarray(x, float)
    y = (x / 2) ** 2
    r = np.zeros_like(x)
    for k in range(M, 1, -1):
        r = y / ((2 * k - 1) + r)
    return .5 - x / 4 / (1 + r)


def poles(ctx, shape, beta, mu):
    rs, r = ctx.np, ctx.rng
    npol = r.choice([1, 2, 5, 12])
    sc = r.choice([1., 1., 10., 5. / beta])
    P = rs.uniform(-3, 3, shape + (npol,)) * sc + mu
    if r.random() < .3:
        P[..., 0] = mu
    if r.random() < .2:
        P[..., -1] = P[..., 0]
    W = rs.rand(*(shape + (npol,))) + 1e-3
    W /= W.sum(-1)[..., None]
    return P, W


@chk.family("contour", quick=90, thorough=1500)
def contour(ctx):
    from edpyt.integrate_gf import integrate_gf
    rs, r = ctx.np, ctx.rng
    default = r.random() < .12
    T, nzp = (300, 100) if default else (10 ** rs.uniform(.7, 5), r.choice([5, 10, 30, 60, 100, 150]))
    if ctx.tier == "quick" and nzp == 150 and r.random() < .5:
        nzp = 40
    beta = QE / (KB * T)
    shape = r.choice([(), (), (3,), (2, 2)])
    amu = r.random() < .5
    mshape = shape
    if not amu:
        mu = r.choice([0., 0., float(rs.normal()), 1])
    else:
        if shape == ():
            mshape = r.choice([(1,), (2,), (5,), (7,), (2, 3)])
        mu = rs.normal(size=mshape) * r.choice([1., 3. / beta])
    base = mu if not amu else mu.mean()
    P, W = poles(ctx, shape, beta, base)
    unit = r.random() < .7
    if not unit:  # traces, off-diagonal elements, parts of a function
        W = W * rs.normal(size=shape + (1,)) * r.choice([1., 3.]) if r.random() < .5 else rs.normal(size=W.shape)
        ctx.count("other_weights")
    ctx.note(T=T, nzp=nzp, mu=mu, P=P, W=W)
    seen = []

    def gf(z):
        seen.append(np.array(z))
        if shape == ():
            zz = np.asarray(z)[..., None]
            return (W / (zz - P)).sum(-1)
        return (W / (np.asarray(z)[..., None] - P)).sum(-1)

    fz = edp.Frozen(P=P, W=W, **({"mu": mu} if amu else {}))
    kw = {} if default else dict(T=T, nzp=nzp)
    got = np.asarray(integrate_gf(gf, mu, **kw) if r.random() < .8 or amu or mu != 0 else integrate_gf(gf, **kw))
    fz.verify(ctx)
    m = np.asarray(mu, float)
    x = beta * (P - (m[..., None] if amu and shape == () else m[..., None] if amu else m))
    want = (W * fermi(x)).sum(-1)
    err = (np.abs(W) * np.abs(fermi_cf(x, 2 * nzp) - fermi(x))).sum(-1)
    ctx.eq(got.shape, want.shape, "one filling per component and chemical potential")
    # 1e10 is used as infinity: |P|/1e10 is the error of the weight
    lim = 2 * err + (1e-9 + 1e-10 * np.abs(P - 0.).max()) * max(1., np.abs(W).sum(-1).max())
    ctx.check(bool(np.all(np.abs(got - want) <= lim)), "filling", got=got, want=want, limit=lim)
    unit and ctx.check(bool(np.all(got > -1e-9 - lim) and np.all(got < 1 + 1e-9 + lim)), "filling lies in [0,1]", got=got)
    if r.random() < .4:
        # the same once more, after the first answer was overwritten
        kept = edp.Kept()
        kept.add(got)
        again = np.array(integrate_gf(gf, mu, **kw))
        ctx.close(again, got, "the same filling when asked again", atol=1e-12)
        kept.verify(ctx)
        ctx.close(np.asarray(integrate_gf(gf, mu, **kw)), again, "the same filling when asked again", atol=1e-12)
        fz.verify(ctx)
        got = again
    ctx.count("fillings", got.size)
    ctx.count("array_mu", amu)
    ctx.count("array_gf", shape != ())
    ctx.count("evaluations", len(seen))
    if amu and shape == ():
        # elementwise: every chemical potential as if it were alone
        k = r.randrange(mu.size)
        one = integrate_gf(gf, float(mu.flat[k]), **kw)
        ctx.close(np.asarray(one), got.flat[k], "a list of potentials acts elementwise", atol=1e-9)
    if P.shape[-1] > 1 and np.any(np.abs(x) < 5):
        ctx.nontrivial(ctx.seed)


@chk.family("monotone", quick=6, thorough=60)
def monotone(ctx):
    """The filling rises with the chemical potential from 0 to 1 and is symmetric about a symmetric spectrum."""
    from edpyt.integrate_gf import integrate_gf
    rs, r = ctx.np, ctx.rng
    T = r.choice([300, 3000, 30000])
    beta = QE / (KB * T)
    P, W = poles(ctx, (), beta, 0.)
    P, W = np.concatenate([P, -P]), np.concatenate([W, W]) / 2
    gf = lambda z: (W / (np.asarray(z)[..., None] - P)).sum(-1)
    mu = np.sort(rs.uniform(-4, 4, 12)) * np.abs(P).max().clip(1 / beta, 5)
    n = np.array([float(integrate_gf(gf, float(m), T=T, nzp=40)) for m in mu])
    ctx.note(T=T, P=P, W=W, mu=mu)
    tol = 1e-8 + 2 * np.abs(fermi_cf(beta * (mu[:, None] - P), 80) - fermi(beta * (mu[:, None] - P))).max()
    ctx.check(bool(np.all(np.diff(n) > -tol)), "filling is nondecreasing in the potential", n=n)
    n2 = np.array([float(integrate_gf(gf, float(-m), T=T, nzp=40)) for m in mu])
    ctx.close(n + n2, np.ones(mu.size), "particle-hole symmetry", atol=tol * 2)
    ctx.count("fillings", 24)
    ctx.count("evaluations", 24)
    ctx.nontrivial(ctx.seed)


@chk.family("fermi-poles", quick=16, thorough=120)
def fermi_poles(ctx):
    """Poles and residues reproduce the Fermi function itself."""
    from edpyt.integrate_gf import zero_fermi
    n = ctx.rng.choice([1, 2, 5, 10, 25, 40, 60, 100])
    kept = edp.Kept()
    kept.add(*zero_fermi(n))
    zero_fermi(n + 1)
    kept.verify(ctx)
    zp, Rp = zero_fermi(n)
    ctx.check(zp.shape == (n,) and Rp.shape == (n,), "one pole and residue each", zp=zp.shape, Rp=Rp.shape)
    ctx.check(bool(np.all(zp > 0) and np.all(np.isfinite(Rp))), "poles on the positive imaginary axis", zp=zp)
    x = np.concatenate([ctx.np.uniform(-1, 1, 20) * n, [0.]])
    # residues of f are -1 in the convention of the routine
    f = .5 + 2 * (Rp[None, :] * x[:, None] / (x[:, None] ** 2 + zp[None, :] ** 2)).sum(1)
    e = np.abs(fermi_cf(x, 2 * n) - fermi(x))
    ctx.check(bool(np.all(np.abs(f - fermi(x)) <= 2 * e + 1e-9)), "sum over poles equals the Fermi function", f=f, want=fermi(x))
    k = np.sort(zp)[:max(n // 4, 1)] if n > 8 else np.sort(zp)[:0]
    ctx.close(k, (2 * np.arange(k.size) + 1) * np.pi, "low poles are the Matsubara frequencies", atol=1e-6)
    ctx.count("fillings", x.size)
    if n > 2:
        ctx.nontrivial(ctx.seed)


class Probe(object):
    """Function object (chemical potential one number or one per site) with a chemical potential; records what it was asked."""

    def __init__(self, P, W, mu):
        self.P, self.W, self._mu, self.hist, self.zs = P, W, mu, [], 0

    @property
    def mu(self):
        return self._mu

    @mu.setter
    def mu(self, v):
        self.hist.append(v)
        self._mu = v

    def __call__(self, z):
        z = np.atleast_1d(z)
        self.zs += z.size
        m = np.asarray(self._mu)[..., None, None]
        return (self.W[..., None] / (z + m - self.P[..., None])).sum(-2)


@chk.family("matsubara", quick=16, thorough=300)
def matsubara(ctx):
    from edpyt.integrate_gf import matsum_gf
    rs, r = ctx.np, ctx.rng
    nm, beta = r.choice([(3000, 70.), (800, 20.), (1500, 5.), (3000, 100.), (400, 1.), (6000, 70.), (20000, 300.)])
    mu = r.choice([0., rs.uniform(-8, 8), rs.normal()])
    shape = r.choice([(), (2,), (3,), (2, 3)])
    P, W = poles(ctx, shape, beta, mu)
    lim = np.abs(P - mu).max()
    top = (2 * nm - 1) * np.pi / beta * .08
    if r.random() < .3:
        # levels comparable with the cut-off
        P = mu + (P - mu) * top / max(lim, 1e-3)
        ctx.count("wide_spectra")
    elif lim > 12:
        P = mu + (P - mu) * 12 / lim
    mu0 = r.choice([0., rs.normal()]) if shape == () or r.random() < .6 else rs.normal(size=shape)
    keep = np.array(mu0)
    g = Probe(P, W, mu0)
    ctx.note(P=P, W=W, mu=mu, beta=beta, nmats=nm)
    fz = edp.Frozen(P=P, W=W)
    if (nm, beta) == (3000, 70.) and r.random() < .5:
        got = matsum_gf(g, mu)
    else:
        got = matsum_gf(g, mu, nmats=nm, beta=beta)
    fz.verify(ctx)
    got = np.asarray(got)
    want = (W * fermi(beta * (P - mu))).sum(-1)
    wm = (2 * nm - 1) * np.pi / beta
    m3 = (W * np.abs(P - mu) ** 3).sum(-1)
    ctx.check(got.shape == want.shape, "one filling per component", got=got.shape)
    ctx.check(bool(np.all(np.abs(got - want) <= 1.2 * m3 / wm ** 3 + 1e-9)), "Matsubara filling", got=got, want=want, limit=1.2 * m3 / wm ** 3)
    ctx.check(np.array_equal(g.mu, keep) and np.array_equal(mu0, keep), "the object's chemical potential is put back", before=keep, after=g.mu)
    ctx.check(g.zs > 0, "the function was evaluated")
    ctx.count("matsubara", got.size)
    ctx.count("fillings", got.size)
    ctx.count("evaluations", g.zs)
    ctx.count("array_gf", shape != ())
    if P.shape[-1] > 1:
        ctx.nontrivial(ctx.seed)


chk.main()
