"""C25: the impurity solver obeys Dyson's equation and its limits."""
import numpy as np
from scipy.constants import e as QE, k as KB

import edp
import gfs
import ref
from vlib import Check

chk = Check("C25", needs=("psparse", "continued_fraction"), omp=2,
            rule="Random impurities (1-4 bath levels, interaction, temperature, partial spectra) driven through random histories of "
                 "reset/fit/update/solve, alone, spin resolved with fields, and as lists of impurities interleaved with each other; "
                 "after every call the Hamiltonian handed to the solver is compared with the star of the bath in force and the "
                 "spectra with a reference diagonalisation; Green's function, self-energy, hybridisation, filling and moments are "
                 "compared with the Lehmann sum over the ground states. Non-trivial: distinct impurity solved with a coupled bath.",
            assumptions=["impurities whose lowest excitation lies between 1e-8 and 1e-4 of the ground state are not compared with the "
                         "reference ground state (only with the states the solver retained)",
                         "a stand-in for the minimiser may place chosen bath parameters; real fits are part of the workload"],
            require={"solves": 1, "spin_solves": 1, "fits": 1, "dyson": 1, "free_limit": 1, "atomic_limit": 1, "lists": 1,
                     "ground_states": 1, "adjusted": 1})


def star(x, mu, n):
    H = np.zeros((n, n))
    H[0, 0] = -mu
    H[range(1, n), range(1, n)] = x[:n - 1]
    H[0, 1:] = H[1:, 0] = x[n - 1:]
    return H


def hyb(x, z):
    m = x.size // 2
    return (x[m:] ** 2 / (np.asarray(z)[:, None] - x[:m])).sum(1)


def bath(ctx, m, spread=2.):
    r, rs = ctx.rng, ctx.np
    e = rs.uniform(-spread, spread, m)
    v = rs.uniform(-1, 1, m)
    k = r.random()
    if k < .2:
        v[:] = 0.
    elif k < .4:
        v[r.randrange(m)] = 0.
    elif k < .5:
        e[:] = e[0]
    elif k < .65:
        h = m // 2
        e[m - h:] = -e[:h][::-1]
        v[m - h:] = v[:h][::-1]
        if m % 2:
            e[h] = 0.
    return np.concatenate([e, v])


def target(ctx, z, m):
    r, rs = ctx.rng, ctx.np
    k = r.choice(["poles", "semi", "exact", "weak"])
    if k == "semi":
        D = r.uniform(.5, 2)
        return D * D / 4 * 2 * (z / D - 1j * np.sign(z.imag) * np.sqrt(1 - (z / D) ** 2)) / D
    if k == "poles":
        return hyb(np.concatenate([rs.uniform(-2, 2, m + 3), rs.uniform(.05, .8, m + 3)]), z)
    return hyb(np.concatenate([rs.uniform(-2, 2, m), rs.uniform(.1, .8, m) * (1 if k == "exact" else 1e-2)]), z)


class Placed(object):
    """Replaces the minimiser for the time of one fit: the next fit ends at the given parameters."""

    def __init__(self, xs):
        import edpyt.dmft as d
        self.d, self.xs = d, list(xs)
        self.old = getattr(d, "fit_hybrid", None)

    def __enter__(self):
        if self.old is not None:
            def put(p, nmats, vals, beta):
                p[:] = self.xs.pop(0)
            self.d.fit_hybrid = put

    def __exit__(self, *a):
        if self.old is not None:
            self.d.fit_hybrid = self.old


def grid(g):
    return 1j * (2 * np.arange(g.nmats) + 1) * np.pi / g.beta


def stuck(x, z, d):
    """Does the conjugate-gradient minimiser stay at x, there or a rounding error away?"""
    from scipy.optimize import fmin_cg
    m = x.size // 2

    def cost(p):
        return (np.abs(hyb(p, z) - d) ** 2).mean()

    def slope(p):
        F = hyb(p, z) - d
        D = np.concatenate([p[m:] ** 2 / (z[:, None] - p[:m]) ** 2, 2 * p[m:] / (z[:, None] - p[:m])], 1)
        return 2 * (F.conj()[:, None] * D).real.mean(0)
    for k in range(-3, 4):
        y = x * (1 + k * 3e-10)
        if not cost(fmin_cg(cost, y, slope, disp=False)) < cost(y) * (1 - 1e-8):
            return True
    return False


def do_fit(ctx, obj, views, real):
    """Fit one impurity (or the spins of one) and check what was written where."""
    m = views[0].n - 1
    z = grid(views[0])
    mus = [v.H[0, 0] for v in views]
    if real:
        ds = [target(ctx, z, m) for _ in views]
        old = [v.Delta.x.copy() for v in views]
        d0 = [d.copy() for d in ds]
        obj.fit(ds[0] if len(views) == 1 else np.array(ds) if ctx.rng.random() < .5 else ds)
        for v, d, dd, o in zip(views, ds, d0, old):
            ctx.check(np.array_equal(d, dd), "the hybridisation to be fitted is left alone")
            c0, c1 = [(np.abs(hyb(x, z) - d) ** 2).mean() for x in (o, v.Delta.x)]
            F = hyb(o, z) - d                      # slope of the cost along the levels and couplings of the start
            D = np.concatenate([o[m:] ** 2 / (z[:, None] - o[:m]) ** 2, 2 * o[m:] / (z[:, None] - o[:m])], 1)
            if np.abs(2 * (F.conj()[:, None] * D).real.mean(0)).max() > 1e-3:
                if c1 < c0:
                    ctx.count("moving_fits")
                else:       # SciPy's line search can fail at such a point: then nobody's fit moves
                    ctx.check(stuck(o, z, d), "a fit with a slope moves the bath", before=c0, after=c1)
                    ctx.count("stuck_fits")
            ctx.check(c1 <= c0 * (1 + 1e-9) + 1e-14, "a fit does not end worse than it started", before=c0, after=c1)
        ctx.count("fits", len(views))
    else:
        xs = [bath(ctx, m) for _ in views]
        with Placed(xs):
            obj.fit([hyb(x, z) for x in xs] if len(views) > 1 else hyb(xs[0], z))
        ctx.count("placed_baths", len(views))
        for v, x in zip(views, xs):
            force(v, x)
    for v, mu in zip(views, mus):
        written(ctx, v, -mu)


def force(v, x):
    """If the stand-in was not in the way of the fit, the parameters are put in place by hand."""
    if not np.array_equal(v.Delta.x, x) and not np.array_equal(v.H, star(x, -v.H[0, 0], v.n)):
        v.Delta.x[:] = x
        v.H[:] = star(x, -v.H[0, 0], v.n)


def written(ctx, v, mu):
    x = np.array(v.Delta.x)
    ctx.close(v.H, star(x, mu, v.n), "the Hamiltonian holds the fitted bath and the level", atol=1e-12)
    ctx.close(v.mu, mu, "chemical potential in force", atol=1e-12)
    z = np.array([.3 + .7j, 2j, -1.5 - .2j])
    ctx.close(np.asarray(v.Delta(z)), hyb(x, z), "hybridisation of the discrete bath", atol=1e-10, rtol=1e-10)
    ctx.close(np.asarray(v.free(z)), 1 / (z + mu - hyb(x, z)), "non-interacting function", atol=1e-10, rtol=1e-9)
    ctx.close(np.asarray(v.free(z, inverse=True)), z + mu - hyb(x, z), "its inverse", atol=1e-10, rtol=1e-9)


def gap(E, lim=1e-4):
    """(degeneracy, clear): clear when nothing lies between 1e-8 and lim above the ground state."""
    lev = np.sort(np.concatenate([e for _, e, _ in E.sec.values()])) - E.egs
    return int((lev < 1e-8).sum()), not bool(((lev >= 1e-8) & (lev < lim)).any())


def judge(ctx, g, spins, H, U, beta, partial=False):
    """g: solved object with espace/egs; spins: [(view, ispin)]; H: the Hamiltonian it must have solved."""
    n = H.shape[-1]
    V = np.zeros((n, n))
    V[0, 0] = U
    E = ref.Ensemble(H, V, n)
    deg, clear = gap(E)
    ctx.close(g.egs, E.egs, "ground-state energy", atol=1e-9, rtol=1e-10)
    R = gfs.Retained(H, V, n, g.espace, beta, g.egs, {})
    lev = np.concatenate([e for e, _ in R.states.values()]) - E.egs
    ctx.check(bool(np.all(lev > -1e-9)), "no state below the ground state", lev=lev)
    if clear:
        ctx.check(bool(np.all(lev < 1e-6)), "only ground states are retained", lev=lev)
        if not partial:
            ctx.check(lev.size == deg, "every ground state is retained", got=lev.size, want=deg)
        ctx.count("ground_states", deg)
    for q, (e, v) in R.states.items():          # they are eigenstates of that Hamiltonian
        h = ref.hamiltonian(H, V, ref.sector_basis(n, *q), n)
        ctx.check(v.shape == (h.shape[0], e.size), "one vector per level", sector=q)
        ctx.close(h.dot(v), v * e, "retained states solve the star Hamiltonian", atol=1e-7)
    W, kept = {}, edp.Kept()
    for view, s in spins:
        x, mu = np.array(view.Delta.x), -H[0, 0] if H.ndim == 2 else -H[s, 0, 0]
        P, w = R.poles(0, 0, s)
        e, eta = gfs.freqs(ctx, P, m=7, etas=(1e-2, .1, 1., 10.))
        z = e + 1j * eta
        want = ref.lehmann(P, w, z)
        if clear and not partial and deg == lev.size:
            # the same from the reference ensemble alone
            P0, w0 = E.poles(beta, 0, 0, s,
                             keep={q: np.where(v[1] - E.egs < 1e-6)[0] for q, v in E.sec.items()})
            ctx.close(want, ref.lehmann(P0, w0, z), "ground-state function", atol=1e-6 + 1e-7 * beta / 1e3 * (deg > 1), rtol=1e-6)
        slack = R.slack([0], s, z)
        lim = gfs.limit(eta) + slack
        got = np.array(kept.add(view(z)))
        ctx.check(got.shape == z.shape, "one value per frequency", got=got.shape)
        err = np.abs(got - want)
        ctx.check(bool(np.all(err <= lim + 1e-9 * np.abs(got))), "impurity Green's function", got=got, want=want, spin=s, limit=lim)
        sig = np.array(kept.add(view.Sigma(z)))
        kept.add(view.Delta(z))
        if len(z) and ctx.rng.random() < .3:
            kept.verify(ctx)
            ctx.close(np.asarray(view.Sigma(z)), sig, "the self-energy, asked again", atol=1e-12, rtol=1e-9)
            ctx.close(np.asarray(view(z)), got, "the function, asked again", atol=1e-12, rtol=1e-9)
        if ctx.rng.random() < .2:                  # other frequencies in the array handed over before
            y = z.copy()
            for f, what in ((view, "function"), (view.Sigma, "self-energy")):
                f(y)
                y += .25
                ctx.close(np.asarray(f(y)), np.asarray(f(y.copy())), "the %s at frequencies changed in place" % what, atol=1e-12, rtol=1e-9)
            ctx.count("in_place_frequencies")
        ctx.check(sig.shape == z.shape, "one self-energy per frequency", got=sig.shape)
        G0 = 1 / (z + mu - hyb(x, z))
        ctx.close(got, 1 / (z + mu - hyb(x, z) - sig), "Dyson's equation", atol=1e-10, rtol=1e-8)
        ctx.count("dyson", z.size)
        # self-energy of the reference; errors of the inverse follow those of the function
        ok = lim < .05 * np.abs(want)
        serr = 4 * lim / np.abs(want) ** 2 + 1e-9 * (1 + np.abs(1 / G0))
        ref_s = 1 / G0 - 1 / want
        ctx.check(bool(np.all(np.abs(sig - ref_s)[ok] <= serr[ok])), "self-energy", got=sig, want=ref_s, limit=serr)
        ctx.check(bool(np.all((got.imag * np.sign(eta))[ok] <= lim[ok])), "causal Green's function", got=got, z=z)
        ctx.check(bool(np.all((sig.imag * np.sign(eta))[ok] <= serr[ok])), "causal self-energy", got=sig, z=z)
        if U == 0.:
            ctx.check(bool(np.all(np.abs(sig)[ok] <= serr[ok])), "no interaction, no self-energy", got=sig)
            ctx.count("free_limit")
        if not any(np.any(v.Delta.x[n - 1:]) for v, _ in spins):
            e0 = [H[0, 0], H[0, 0]] if H.ndim == 2 else [H[0, 0, 0], H[1, 0, 0]]
            occ = 0.                                   # filling of the opposite spin
            for q, (e2, v2) in R.states.items():
                p = (v2 ** 2).dot(np.exp(-beta * (e2 - R.egs))) / R.Z
                occ += (p * SPIN(ref.sector_basis(n, *q), n, 1 - s)).sum()
            atom = (1 - occ) / (z - e0[s]) + occ / (z - e0[s] - U)
            ctx.check(bool(np.all(np.abs(got - atom) <= 2 * lim + 1e-9 * np.abs(atom))), "atomic limit", got=got, want=atom, occ=occ)
            ctx.count("atomic_limit")
        W[s] = (P, w)
    coupled = any(np.any(v.Delta.x[n - 1:]) for v, _ in spins)
    if coupled:
        ctx.nontrivial(ctx.family, ctx.seed)
    return R, W


def fermi(P, w, mu):
    x = QE / (KB * 300) * (P - mu)
    y, r = (x / 2) ** 2, np.zeros_like(x)
    for k in range(200, 1, -1):
        r = y / ((2 * k - 1) + r)
    f = .5 * (1 - np.tanh(x / 2))
    return float((w * f).sum()), float((np.abs(w) * np.abs(.5 - x / 4 / (1 + r) - f)).sum())


def solve(ctx, g, n, U):
    """One solution; the number of states asked for next follows the states found."""
    from math import comb
    neig = getattr(g, "neig", None)
    old = None if neig is None else np.array(neig)
    g.solve()
    if old is None:
        return
    if getattr(g, "adjust_neig", False):
        for a in range(n + 1):
            for b in range(n + 1):
                k = a * (n + 1) + b
                got = g.espace[a, b].eigvals.size if (a, b) in g.espace else 0
                if got == old[k]:
                    old[k] = min(comb(n, a) * comb(n, b), old[k] + 1)
                elif got < old[k]:
                    old[k] = max(1, old[k] - 1)
        ctx.count("adjusted")
    ctx.check(np.array_equal(np.asarray(g.neig), old), "number of states asked for in the next solution", got=g.neig, want=old)


def settings(ctx, nmax):
    r = ctx.rng
    n = r.choice([k for k in (2, 2, 3, 3, 3, 4, 4, 5) if k <= nmax])
    U = r.choice([0., 0., 1., 3., r.uniform(0, 8), -r.uniform(0, 3)])
    beta = r.choice([10., 70., 1e3, 1e6])
    # fits on a grid that reaches the band
    nm = r.choice([8, 20]) if beta < 1e3 else r.choice([8, 20])
    return n, U, beta, nm


@chk.family("single", quick=45, thorough=1400)
def single(ctx):
    """Random histories of one or two impurities."""
    from edpyt.dmft import Gfimp
    from edpyt.espace import get_espace_dim
    r = ctx.rng
    gs = []
    for _ in range(r.choice([1, 1, 2])):
        n, U, beta, nm = settings(ctx, 5 if ctx.thorough else 4)
        neig = None
        if r.random() < .4:
            neig = get_espace_dim(n, r.choice([1, 2, 4, None]))
        kw = dict(adjust_neig=True) if neig is not None and r.random() < .6 else {}
        g = Gfimp(n, nm, U, beta, neig, **kw) if r.random() < .5 else Gfimp(n, nmats=nm, U=U, beta=beta, neig=neig, **kw)
        ctx.close(np.asarray(g.Delta.x), np.asarray(_initial(n - 1)), "a new impurity has the initial bath", atol=1e-12)
        gs.append([g, U, beta, None if neig is None else neig.copy(), 0.])
    ctx.note(models=[(g.n, g.nmats, U, b, nq) for g, U, b, nq, _ in gs])
    for it in range(r.choice([1, 1, 2])):
        for rec in gs:
            g, U, beta, neig, mu = rec
            fresh = it == 0
            if r.random() < .3:
                g.reset_bath()
                fresh = True
            ops = r.choice([("fit", "update"), ("update", "fit"), ("fit_update",), ("update", "fit", "fit"), ("fit", "update", "update")])
            for op in ops:
                if op == "fit":
                    do_fit(ctx, g, [g], r.random() < .3)
                    fresh = False
                elif op == "update":
                    rec[4] = mu = r.choice([0., U / 2, float(ctx.np.normal()) * 2])
                    x = g.Delta.x.copy()
                    h = g.H.copy()
                    g.update(mu)
                    h[0, 0] = -mu
                    ctx.close(g.H, h, "an update changes the level only", atol=1e-14)
                    ctx.check(np.array_equal(x, g.Delta.x), "an update leaves the bath alone")
                else:
                    rec[4] = mu = r.choice([0., U / 2, float(ctx.np.normal()) * 2])
                    x = bath(ctx, g.n - 1)
                    with Placed([x]):
                        g.fit_update(hyb(x, grid(g)), mu)
                    force(g, x)
                    fresh = False
                if not fresh:
                    written(ctx, g, mu)
            others = [(o[0], o[0].H.copy(), o[0].Delta.x.copy()) for o in gs if o is not rec]
            H0 = g.H.copy()
            solve(ctx, g, g.n, U)
            ctx.check(np.array_equal(H0, g.H), "solving leaves the Hamiltonian alone")
            for o, h, x in others:
                ctx.check(np.array_equal(o.H, h) and np.array_equal(o.Delta.x, x), "other impurities are left alone")
            ctx.count("solves")
            if r.random() < .3:                      # the same star with another interaction
                u = r.choice([0., 1., 3., r.uniform(0, 8)])
                g.V[0, 0] = u
                if g.V[0, 0] == u:                   # (V could as well be handed out as a copy)
                    U = rec[1] = u
                solve(ctx, g, g.n, U)
                ctx.count("other_interaction")
            ctx.check(not np.any(g.V - np.diag([U] + [0.] * (g.n - 1))), "interaction on the impurity only")
        for g, U, beta, neig, mu in gs:              # judged after everybody was solved
            R, W = judge(ctx, g, [(g, 0)], star(g.Delta.x, mu, g.n), U, beta, partial=neig is not None)
            if r.random() < .25:
                m2 = r.choice([0., float(ctx.np.normal())])
                want, err = fermi(*W[0], mu=m2)
                sl = R.slack([0], 0, np.array([.08j + m2]))[0]
                got = float(np.squeeze(g.integrate(m2) if m2 or r.random() < .5 else g.integrate()))
                ctx.check(abs(got - 2 * want) <= 4 * err + 1e-5 + 10 * sl, "filling of both spins", got=got, want=2 * want)
                ctx.count("fillings")


@chk.family("spin", quick=28, thorough=900)
def spin(ctx):
    from edpyt.dmft import SpinGfimp
    from edpyt.espace import get_espace_dim
    r = ctx.rng
    n, U, beta, nm = settings(ctx, 4 if ctx.thorough else 3)
    kw = {}
    if r.random() < .35:
        kw = dict(neig=get_espace_dim(n, r.choice([1, 2, 4, None])), adjust_neig=r.random() < .6)
    g = SpinGfimp(n, nm, U, beta, **kw)
    ctx.note(n=n, U=U, beta=beta, partial=kw)
    for v in g:
        ctx.close(np.asarray(v.Delta.x), np.asarray(_initial(n - 1)), "a new impurity has the initial bath", atol=1e-12)
    ctx.check(g.up.spin == 0 and g.dw.spin == 1 and g[0] is g.up and g[1] is g.dw and [x for x in g] == [g.up, g.dw],
              "the spins are up and down")
    for it in range(r.choice([1, 2])):
        mu = [0., 0.]
        kind = r.choice(["fit", "placed", "placed", "symmetrize", "fit_update"])
        if kind == "symmetrize":
            do_fit(ctx, g.up, [g.up], r.random() < .3)
            a = float(ctx.np.normal())
            g.up.update(a)
            h = g.up.H.copy()
            g.spin_symmetrize()
            mu = [a, a]
            ctx.check(np.array_equal(g.up.H, h), "symmetrising copies up to down")
            ctx.close(g.dw.H, h, "symmetrising copies up to down", atol=0.)
            ctx.close(g.dw.Delta.x, g.up.Delta.x, "symmetrising copies the bath", atol=0.)
            if r.random() < .6:
                f = r.choice([.5, -.3])
                mu = [a + f, a - f]
                g.up.update(a + f)
                g.dw.update(a - f)
            written(ctx, g.up, mu[0])
            written(ctx, g.dw, mu[1])
        elif kind == "fit_update":
            a = float(ctx.np.normal())
            xs = [bath(ctx, n - 1), bath(ctx, n - 1)]
            with Placed(xs):
                g.fit_update([hyb(x, grid(g)) for x in xs], a)
            for v, x in zip(g, xs):
                force(v, x)
            mu = [a, a]
        else:
            do_fit(ctx, g, [g.up, g.dw], kind == "fit")
            k = r.choice(["update", "separate"])
            if k == "update":
                a = r.choice([0., U / 2, float(ctx.np.normal())])
                if r.random() < .5:                  # a field that is switched off again
                    x, y = float(ctx.np.normal()), float(ctx.np.normal())
                    g.up.update(x)
                    g.dw.update(y)
                    a = r.choice([x, y, a])
                g.update(a)
                mu = [a, a]
            else:
                mu = [float(ctx.np.normal()), float(ctx.np.normal())]
                order = [0, 1]
                r.shuffle(order)
                for s in order:
                    (g.up, g.dw)[s].update(mu[s])
        for s, v in enumerate(g):
            written(ctx, v, mu[s])
            ctx.close(g.H[s], v.H, "each spin has its Hamiltonian", atol=0.)
        ctx.close(g.mu, mu[0], "chemical potential in force", atol=1e-12)
        solve(ctx, g, n, U)
        if r.random() < .3:
            u = r.choice([0., 1., 3., r.uniform(0, 8)])
            g.V[0, 0] = u
            if g.V[0, 0] == u:
                U = u
            solve(ctx, g, n, U)
            ctx.count("other_interaction")
        ctx.count("spin_solves")
        H = np.array([star(v.Delta.x, m, n) for v, m in zip(g, mu)])
        R, W = judge(ctx, g, [(g.up, 0), (g.dw, 1)], H, U, beta, partial=bool(kw))
        z = np.array([.2 + .5j, 3j])
        S = np.asarray(g.Sigma(z))
        ctx.check(S.shape == (2, 2), "one self-energy per spin", got=S.shape)
        for s in range(2):
            ctx.close(S[s], np.asarray(g[s].Sigma(z)), "self-energies ordered up, down", atol=1e-10)
        if r.random() < .2:
            m2 = r.choice([0., float(ctx.np.normal())])
            a, b = fermi(*W[0], mu=m2), fermi(*W[1], mu=m2)
            got = float(np.squeeze(g.integrate(m2)))
            sl = sum(R.slack([0], s, np.array([.08j + m2]))[0] for s in range(2))
            ctx.check(abs(got - a[0] - b[0]) <= 4 * (a[1] + b[1]) + 1e-5 + 10 * sl, "filling of the two spins", got=got, want=a[0] + b[0])
            ctx.count("fillings")


@chk.family("list", quick=12, thorough=400)
def lists(ctx):
    """The list of impurities of a nanostructure."""
    from edpyt.dmft import Gfimp, SpinGfimp
    from edpyt.nano_dmft import Gfimp as Many
    r, rs = ctx.rng, ctx.np
    sp = r.random() < .5
    k = r.choice([1, 2, 3])
    n, _, beta, nm = settings(ctx, 3)
    ns = [n if r.random() < .7 else r.choice([2, 3]) for _ in range(k)]
    Us = [r.choice([0., r.uniform(.5, 6)]) for _ in range(k)]
    g = Many([(SpinGfimp if sp else Gfimp)(m, nm, U, beta) for m, U in zip(ns, Us)])
    ctx.note(spin=sp, ns=ns, Us=Us, beta=beta)
    ctx.check(len(g) == k and [x for x in g] == [g[i] for i in range(k)], "all impurities, in order")
    g.reset_bath()
    flat = [v for x in g for v in (x if sp else [x])]
    for v in flat:
        ctx.close(np.asarray(v.Delta.x), np.asarray(_initial(v.n - 1)), "every bath is reset", atol=1e-12)
    xs = [bath(ctx, v.n - 1) for v in flat]
    z = grid(g)
    ds = [hyb(x, z) for x in xs]
    with Placed(xs):
        g.fit([ds[2 * i:2 * i + 2] for i in range(k)] if sp else ds)
    for v, x in zip(flat, xs):
        force(v, x)
    mu = r.choice(["scalar", "array"])
    mus = [float(rs.normal())] * k if mu == "scalar" else list(rs.normal(size=k))
    g.update(mus[0] if mu == "scalar" else np.array(mus))
    for i, x in enumerate(g):
        for v in (x if sp else [x]):
            written(ctx, v, mus[i])
    field = [0.] * k
    if sp and r.random() < .6:
        if r.random() < .5:
            g.spin_symmetrize()
            for x in g:
                ctx.close(x.dw.H, x.up.H, "every impurity is symmetrised", atol=0.)
        field = list(rs.normal(size=k))
        g.up.update(np.array(mus) + field)
        g.dw.update(np.array(mus) - field)
        for i, x in enumerate(g):
            written(ctx, x.up, mus[i] + field[i])
            written(ctx, x.dw, mus[i] - field[i])
    g.solve()
    zz = np.array([.1 + .4j, 2j, -1 + .3j])
    S = np.asarray(g.Sigma(zz))
    ctx.check(S.shape == ((k, 2, 3) if sp else (k, 3)), "one self-energy per impurity", got=S.shape)
    mom = []
    for i, x in enumerate(g):
        if sp:
            H = np.array([star(v.Delta.x, m, ns[i]) for v, m in zip(x, (mus[i] + field[i], mus[i] - field[i]))])
            R, W = judge(ctx, x, [(x.up, 0), (x.dw, 1)], H, Us[i], beta)
        else:
            R, W = judge(ctx, x, [(x, 0)], star(x.Delta.x, mus[i], ns[i]), Us[i], beta)
        ctx.close(S[i], np.asarray(x.Sigma(zz)), "self-energies in the order of the impurities", atol=1e-10)
        m = 0.
        for q, (e, v) in R.states.items():
            p = (v ** 2).dot(np.exp(-beta * (e - R.egs))) / R.Z
            st = ref.sector_basis(ns[i], *q)
            m += (p * (SPIN(st, ns[i], 0) - SPIN(st, ns[i], 1))).sum()
        mom.append(m)
    ctx.close(np.asarray(g.get_local_moments()), np.array(mom), "local moments", atol=1e-6 + 1e-12 * beta)
    ctx.count("lists")


@chk.family("refits", quick=14, thorough=400)
def refits(ctx):
    """Long histories of real fits, resets and updates: every fit depends on the bath and the data alone."""
    from edpyt.dmft import Gfimp, SpinGfimp
    r, rs = ctx.rng, ctx.np
    n, beta, nm = r.choice([2, 3, 3, 4]), r.choice([10., 70.]), r.choice([6, 20])
    sp = r.random() < .3
    g = SpinGfimp(n, nm, 1., beta) if sp else Gfimp(n, nm, 1., beta)
    views = [g.up, g.dw] if sp else [g]
    z = grid(views[0])
    pool = [[target(ctx, z, n - 1) for _ in views] for _ in range(2)]
    ctx.note(n=n, beta=beta, nmats=nm, spin=sp)
    log = []
    for step in range(r.randint(4, 8)):
        op = r.choice(["fit", "fit", "reset", "update", "place", "solve"] if step else ["reset", "fit"])
        log.append(op)
        ctx.note(history=log)
        if op == "fit":
            ds = r.choice(pool)
            if r.random() < .2:
                for d in ds:
                    d *= 1.5                              # the caller reuses its arrays
            before = [v.Delta.x.copy() for v in views]
            g.fit(np.array(ds) if sp else ds[0])
            for v, d, x in zip(views, ds, before):
                other = Gfimp(n, nm, 1., beta)
                other.Delta.x[:] = x
                other.fit(d.copy())
                ctx.close(v.Delta.x, other.Delta.x, "a fit depends on the bath it starts from and the data alone", atol=1e-9, rtol=1e-9)
                ctx.count("refits")
        elif op == "reset":
            g.reset_bath()
            for v in views:
                ctx.close(np.asarray(v.Delta.x), np.asarray(_initial(n - 1)), "the bath is reset", atol=1e-12)
        elif op == "update":
            g.update(float(rs.normal()))
        elif op == "place":
            for v in views:
                v.Delta.x[:] = np.concatenate([rs.uniform(-2, 2, n - 1), rs.uniform(.1, .8, n - 1)])
        elif n <= 3 and any("fit" in log[k:] for k in [max([i for i, o in enumerate(log) if o in ("reset", "place")] or [0])]):
            g.solve()
            for v in views:
                ctx.close(v.H, star(v.Delta.x, -v.H[0, 0], n), "the Hamiltonian holds the fitted bath and the level", atol=1e-12)
    ctx.nontrivial(ctx.seed)


def SPIN(st, n, s):
    return ((st >> (n * s)) & 1).astype(float)


def _initial(m):
    from edpyt.fit_cg import get_initial_bath
    return get_initial_bath(nbath=m)


chk.main()
