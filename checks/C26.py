"""C26: local lattice Green's function, Weiss field and hybridisation."""
import numpy as np

import edp
from vlib import Check

chk = Check("C26", needs=("psparse", "continued_fraction"), omp=1,
            rule="Random single-site lattices (hybridisation function, Bethe lattice, finite densities of states) and "
                 "nanostructures of 1-8 sites (Hermitian, overlap, lead self-energy, any equivalence map and choice of "
                 "representatives), self-energies from random poles (spin resolved or not), scalar and array frequencies, "
                 "histories of update/set_local, chemical potentials, fillings. Oracles: quadrature of the density of states, "
                 "dense inverses written out site by site, Fermi sums over generalised eigenvalues. Non-trivial: frequency-"
                 "dependent self-energy with more than one site or a frequency-dependent hybridisation.",
            assumptions=["the built-in Bethe transform is evaluated in the closed upper half plane, where it is defined",
                         "fillings are compared for orthogonal orbitals (unit weight per site)"],
            require={"frequencies": 1, "bethe": 1, "nano": 1, "single_class": 1, "late_representative": 1, "spin_resolved": 1,
                     "overlap": 1, "fillings": 1, "frequencies_again": 1})


class Pole(object):
    """Random causal function(s): shape + frequencies; records what it was asked."""

    def __init__(self, rs, shape=(), npol=3, const=True):
        self.c = rs.normal(size=shape) * const
        self.p = rs.uniform(-3, 3, shape + (npol,))
        self.w = rs.uniform(0, 1, shape + (npol,))
        self.calls = 0

    def __call__(self, z):
        self.calls += 1
        z = np.asarray(z)
        return self.c[..., None] + (self.w[..., None, :] / (z[:, None] - self.p[..., None, :])).sum(-1) if z.ndim else \
            self.c + (self.w / (z - self.p)).sum(-1)


def zs(ctx, scalar=True, upper=False):
    r, rs = ctx.rng, ctx.np
    m = r.choice([1, 2, 5, 9])
    z = rs.uniform(-4, 4, m) + 1j * np.array([r.choice([1, 1, -1] if not upper else [1]) * r.choice([1e-2, .1, 1., 20.]) for _ in range(m)])
    if r.random() < .3:
        z = 1j * (2 * np.arange(m) + 1) * np.pi / r.choice([1., 50.])
    if scalar and r.random() < .25:
        return complex(z[0])
    return z


def again(ctx, old, new, scalar=True):
    """The frequencies of the previous round once more (the same array, now and then holding other values), or new ones."""
    if old is None or (not scalar and not np.ndim(old)) or ctx.rng.random() < .5:
        return new
    if np.ndim(old) and ctx.rng.random() < .3:
        old += .25
    ctx.count("frequencies_again", np.size(old))
    return old


@chk.family("single-site", quick=250, thorough=8000)
def single(ctx):
    """A lattice given by its hybridisation function or Hilbert transform."""
    from edpyt.dmft import Gfhilbert, Gfhybrid
    r, rs = ctx.rng, ctx.np
    kind = r.choice(["hybrid", "hilbert"])
    if kind == "hybrid":
        f = Pole(rs, const=r.random() < .5)
        g = Gfhybrid(f)
        inv = lambda z, mu, s: z + mu - f(z) - s
    else:
        e = rs.uniform(-2, 2, r.choice([1, 3, 20]))
        w = rs.rand(e.size) + .05
        w /= w.sum()
        def f(z):
            return (w / (np.asarray(z)[..., None] - e)).sum(-1)
        g = Gfhilbert(f)
        inv = lambda z, mu, s: 1 / f(z + mu - s)
    kept = edp.Kept()
    z = None
    for _ in range(3):
        mu = r.choice([0., 1, float(rs.normal())])
        sp = r.random() < .3
        S = Pole(rs, (2,) if sp else ())
        if r.random() < .15:
            S = lambda z: 0.
        for k in r.sample([0, 1], 2):
            if k:
                g.update(mu)
            else:
                g.set_local(S)
        z = again(ctx, z, zs(ctx, scalar=not sp), not sp)
        ctx.note(kind=kind, mu=mu, z=z, spin=sp)
        fz = edp.Frozen(**({"z": z} if isinstance(z, np.ndarray) else {}))
        s = S(z)
        i = inv(z, mu, s)
        i0 = inv(z, mu, 0.)
        T = dict(atol=1e-10, rtol=1e-9)
        ctx.close(np.asarray(kept.add(g(z))), 1 / np.asarray(i), "local function", **T)
        ctx.close(np.asarray(kept.add(g(z, inverse=True))), np.asarray(i), "inverse local function", **T)
        ctx.close(np.asarray(kept.add(g.free(z))), 1 / np.asarray(i0), "non-interacting function", **T)
        ctx.close(np.asarray(kept.add(g.free(z, inverse=True))), np.asarray(i0), "inverse non-interacting function", **T)
        ctx.close(np.asarray(kept.add(g.Weiss(z))), np.asarray(i + s), "Weiss field", **T)
        ctx.close(np.asarray(kept.add(g.Delta(z))), np.asarray(z + mu - g.ed - i - s), "hybridisation", **T)
        if kind == "hybrid":
            ctx.close(np.asarray(g.Delta(z)), np.broadcast_to(f(z), np.shape(i)), "the hybridisation is the given one", **T)
        ctx.check(g.mu == mu, "chemical potential in force", got=g.mu)
        fz.verify(ctx)
        if r.random() < .5:
            kept.verify(ctx)
            ctx.close(np.asarray(g(z)), 1 / np.asarray(i), "local function, asked again", **T)
            ctx.close(np.asarray(g.Weiss(z)), np.asarray(i + s), "Weiss field, asked again", **T)
        ctx.count("frequencies", np.size(z))
        ctx.count("spin_resolved", sp)
        ctx.nontrivial(ctx.family, ctx.seed)


def semicircle(z):
    z = np.asarray(z, complex)
    return 2 / (z + np.sqrt(z - 1) * np.sqrt(z + 1))


@chk.family("bethe", quick=120, thorough=4000)
def bethe(ctx):
    """The built-in transform of the semicircular density of states."""
    from edpyt.dmft import Gfhilbert, ht
    r, rs = ctx.rng, ctx.np
    z = zs(ctx, upper=True)
    if r.random() < .3:
        z = rs.uniform(-1.5, 1.5, 4) + 0j        # on the real axis: retarded limit
    ctx.note(z=z)
    fz = edp.Frozen(**({"z": z} if isinstance(z, np.ndarray) else {}))
    got = np.asarray(ht(z))
    fz.verify(ctx)
    want = semicircle(np.where(np.imag(z) > 0, z, np.asarray(z) + 1e-300j))
    tol = dict(atol=1e-12, rtol=1e-11)
    # 2(z - sqrt(z^2-1)) cancels for large arguments
    lim = 1e-13 * (1 + np.abs(z)) + 1e-7 * (np.abs(np.abs(np.real(z)) - 1) < 1e-12)
    ctx.check(got.shape == want.shape and bool(np.all(np.abs(got - want) <= 10 * lim)), "semicircular transform", got=got, want=want)
    x, wq = np.polynomial.chebyshev.chebgauss(2000)
    if np.ndim(z) and np.all(np.abs(np.imag(z)) > .09):
        dos = 2 / np.pi * np.sqrt(1 - x ** 2)
        q = (wq * np.sqrt(1 - x ** 2) * dos / (np.asarray(z)[:, None] - x)).sum(1)
        ctx.close(got, q, "transform of the density of states", atol=1e-5)
        ctx.count("quadratures")
    g = Gfhilbert(ht)
    mu = float(rs.normal())
    S = Pole(rs)
    g.set_local(S)
    g.update(mu)
    if np.all(np.imag(z) > 0):
        s = S(z)
        w = semicircle(z + mu - s)
        ctx.close(np.asarray(g(z)), w, "local function of the Bethe lattice", atol=1e-10, rtol=1e-8)
        # the Bethe lattice closes: Delta = G/4
        ctx.close(np.asarray(g.Delta(z)), w / 4, "self-consistency of the Bethe lattice", atol=1e-9 * (1 + np.abs(z).max()) ** 2)
        ctx.nontrivial(ctx.family, ctx.seed)
    ctx.count("bethe", np.size(z))
    ctx.count("frequencies", np.size(z))


def equivalence(ctx, n):
    """(idx_neq, idx_inv): any partition of the sites into classes, any representatives, any class order."""
    r, rs = ctx.rng, ctx.np
    k = r.choice([1, n, r.randint(1, n)])
    lab = np.concatenate([np.arange(k), rs.randint(k, size=n - k)])
    rs.shuffle(lab)
    how = r.choice(["unique", "any", "last"])
    if how == "unique":
        _, neq, inv = np.unique(lab, return_index=True, return_inverse=True)
    else:
        neq = np.array([r.choice(list(np.where(lab == c)[0])) if how == "any" else np.where(lab == c)[0][-1] for c in range(k)])
        inv = lab
    return np.asarray(neq), np.asarray(inv)


def structure(ctx, n, overlap=True):
    r, rs = ctx.rng, ctx.np
    H = rs.normal(size=(n, n))
    H = (H + H.T) / 2
    if r.random() < .25:
        K = rs.normal(size=(n, n))
        H = H + .5j * (K - K.T)
    S = np.eye(n)
    if overlap and r.random() < .5:
        B = rs.normal(size=(n, n)) * .2
        S = np.eye(n) + B.dot(B.T)
    kind = r.choice(["zero", "lead", "lead", "full"])
    if kind == "zero":
        hyb = lambda z: 0. if r.random() < .5 else np.zeros((n, n))
    elif kind == "lead":
        gam = np.zeros((n, n))
        gam[0, 0], gam[-1, -1] = rs.uniform(.1, 1), rs.uniform(.1, 1)
        hyb = lambda z: -1j * np.sign(np.imag(z)) * gam
    else:
        A = rs.normal(size=(n, n)) * .4
        e = rs.uniform(-2, 2, n)
        hyb = lambda z: (A / (z - e)).dot(A.T)
    return H, S, hyb, kind


def site_sum(H, S, hyb, z, mu, sig, inv):
    n = H.shape[0]
    M = (z + mu) * S - H - hyb(z) - np.diag([sig[inv[i]] for i in range(n)])
    return np.linalg.inv(M)


@chk.family("nano", quick=220, thorough=8000)
def nano(ctx):
    from edpyt.nano_dmft import Gfloc
    r, rs = ctx.rng, ctx.np
    n = r.choice([1, 2, 3, 4, 4, 6, 8])
    H, S, hyb, kind = structure(ctx, n)
    neq, inv = equivalence(ctx, n)
    k = neq.size
    fz = edp.Frozen(H=H, S=S, neq=neq, inv=inv)
    g = Gfloc(H, S, hyb, neq, inv)
    ctx.note(n=n, H=H, S=S, kind=kind, neq=neq, inv=inv)
    ctx.close(np.asarray(g.ed), H.diagonal()[neq], "local levels", atol=0)
    kept = edp.Kept()
    z = None
    for _ in range(3):
        mu = r.choice([0., float(rs.normal())])
        sp = r.random() < .4
        Sg = Pole(rs, (k, 2) if sp else (k,))
        for o in r.sample([0, 1], 2):
            if o:
                g.update(mu)
            else:
                g.set_local(lambda z: Sg(np.atleast_1d(z)))
        z = again(ctx, z, zs(ctx))
        za = np.atleast_1d(z)
        f2 = edp.Frozen(**({"z": z} if isinstance(z, np.ndarray) else {}))
        ctx.note(mu=mu, z=z, spin=sp)
        s = Sg(za)
        want = np.empty(s.shape, complex)
        for i in np.ndindex(s.shape[1:]):
            want[(slice(None),) + i] = site_sum(H, S, hyb, za[i[-1]], mu, s[(slice(None),) + i], inv)[neq, neq]
        T = dict(atol=1e-9, rtol=1e-8)
        got = np.asarray(kept.add(g(z)))
        ctx.check(got.shape == want.shape, "one value per class%s and frequency" % (", spin" if sp else ""), got=got.shape, want=want.shape)
        ctx.close(got, want, "local function", **T)
        ctx.close(np.asarray(kept.add(g.Weiss(z))), 1 / want + s, "Weiss field", **T)
        ed = H.diagonal()[neq].reshape((k,) + (1,) * (s.ndim - 1))
        ctx.close(np.asarray(kept.add(g.Delta(z))), za + mu - ed - 1 / want - s, "hybridisation", **T)
        z0 = complex(za[0])
        M = (z0 + mu) * S - H - hyb(z0)
        ctx.close(np.asarray(g.free(z0, inverse=True)), M, "inverse non-interacting function", **T)
        ctx.close(np.asarray(g.free(z0)), np.linalg.inv(M), "non-interacting function", **T)
        f2.verify(ctx)
        if r.random() < .5:
            kept.verify(ctx)
            ctx.close(np.asarray(g(z)), want, "local function, asked again", **T)
            ctx.close(np.asarray(g.Delta(z)), za + mu - ed - 1 / want - s, "hybridisation, asked again", **T)
        ctx.check(g.mu == mu, "chemical potential in force", got=g.mu)
        ctx.count("frequencies", za.size)
        ctx.count("nano", za.size)
        ctx.count("single_class", k == 1 and n > 1)
        ctx.count("late_representative", bool(np.any(neq >= k)))
        ctx.count("spin_resolved", sp)
        ctx.count("overlap", bool(np.any(S - np.eye(n))))
        if n > 1:
            ctx.nontrivial(ctx.family, ctx.seed)
    fz.verify(ctx)


@chk.family("nano-filling", quick=28, thorough=150)
def filling(ctx):
    """Filling per site from the local function: Fermi sum over the eigenvalues (static self-energy)."""
    from edpyt.nano_dmft import Gfloc
    r, rs = ctx.rng, ctx.np
    n = r.choice([1, 2, 2, 3, 4])
    H = rs.normal(size=(n, n))
    H = (H + H.T) / 2
    neq, inv = equivalence(ctx, n)
    k = neq.size
    g = Gfloc(H, np.eye(n), lambda z: np.zeros((n, n)), neq, inv)
    sp = r.random() < .5
    c = rs.normal(size=(k, 2) if sp else (k,))
    g.set_local(lambda z: np.broadcast_to(c[..., None], c.shape + (np.size(z),)).astype(complex))
    mu0, mu = r.choice([0., float(rs.normal())]), float(rs.normal())
    g.update(mu0)
    ctx.note(n=n, H=H, c=c, mu=mu, neq=neq, inv=inv)
    got = np.asarray(g.integrate(mu))
    occ = []
    for s in range(2):
        cs = c[:, s] if sp else c
        e, v = np.linalg.eigh(H + np.diag(cs[inv]))
        occ.append((np.abs(v) ** 2 * (.5 - .5 * np.tanh(35. * (e - mu)))).sum(1))
    # the class value is that of its representative
    want = (occ[0] + occ[1])[neq][inv]
    ctx.check(got.size == n, "one filling per site", got=got.shape, spin=sp)
    ctx.close(got.ravel(), want, "filling of every site, both spins", atol=2e-5)
    ctx.close(g.mu, mu0, "chemical potential is put back", atol=0)
    ctx.count("fillings", n)
    ctx.count("spin_resolved", sp)
    if n > 1:
        ctx.nontrivial(ctx.family, ctx.seed)


chk.main()
