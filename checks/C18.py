"""C18: the chemical potential found meets the requested occupancy."""
import numpy as np

import ref
from vlib import Check

chk = Check("C18", needs=("psparse", "continued_fraction"), omp=1,
            rule="Monotone occupation curves (smooth, steep, with plateaus, piecewise, of several sites) behind a monitor that "
                 "records every query, occupations integrated from Green's functions by the library, and the library's own "
                 "impurity and lattice objects; goals scalar and per site, inside, at the edge of and outside the bracket. "
                 "Oracle: the occupation just below and just above the returned potential encloses the goal; outside the "
                 "bracket an error. Non-trivial: goal strictly inside and curve not constant.",
            assumptions=["occupation curves are nondecreasing"],
            require={"goals_met": 1, "goals_refused": 1, "queries": 1, "library_objects": 1, "scalar_goals": 1, "started_nearby": 1})


class Curve(object):
    def __init__(self, f):
        self.f, self.q = f, []

    def integrate(self, mu=0.):
        self.q.append(float(mu))
        return self.f(float(mu))


def sig(x):
    return .5 * (1 + np.tanh(x / 2))


def curve(ctx):
    rs, r = ctx.np, ctx.rng
    k = r.choice(["fermi", "fermi", "steep", "linear", "piecewise", "plateau"])
    ns = r.choice([1, 2, 4])
    e, w, b = rs.uniform(-15, 15, (ns, 3)), rs.dirichlet(np.ones(3), ns) * 2, rs.uniform(.2, 5)
    if k == "steep":
        b = r.choice([50., 1e3])
    if k == "linear":
        f = lambda mu: np.full(ns, (mu + 60.) / 60.)
    elif k == "piecewise":
        x, y = np.sort(rs.uniform(-30, 30, 6)), np.sort(rs.uniform(0, 2, 6))
        f = lambda mu: np.full(ns, np.interp(mu, x, y) + 1e-3 * mu)
    else:
        f = lambda mu: (w * sig(b * (mu - e))).sum(1) + (0. if k == "plateau" else 1e-3 * mu)
    if ns == 1 and r.random() < .5:
        g = f
        f = lambda mu: np.float64(g(mu)[0])
    return k, f


def enclosed(ctx, f, mu, goal, what, h=1e-8):
    lo, hi = float(np.sum(f(mu - h))), float(np.sum(f(mu + h)))
    g = float(np.sum(goal))
    ctx.check(lo - 1e-9 * (1 + abs(g)) <= g <= hi + 1e-9 * (1 + abs(g)), what, mu=mu, goal=g, below=lo, above=hi)


@chk.family("curves", quick=400, thorough=15000)
def curves(ctx):
    from edpyt.dmft import adjust_mu
    rs, r = ctx.np, ctx.rng
    k, f = curve(ctx)
    br = None if r.random() < .5 else tuple(np.sort(rs.uniform(-40, 40, 2)))
    lo, hi = br if br else (-20., 20.)
    a, b = float(np.sum(f(lo))), float(np.sum(f(hi)))
    gap = max(b - a, 1e-3)
    where = r.choice(["in", "in", "in", "edge", "above", "below"])
    if where == "in":
        tot = a + (b - a) * rs.uniform(.02, .98)
    elif where == "edge":
        tot = r.choice([a, b])
    else:
        tot = b + gap * rs.uniform(.01, 2) if where == "above" else a - gap * rs.uniform(.01, 2)
    # the goal, in one of the forms an occupation may have
    ns = np.size(f(0.))
    form = r.choice(["array", "array", "float", "npfloat", "0d"])
    if form == "array":
        goal = rs.dirichlet(np.ones(max(ns, 1))) * tot
        goal[0] += tot - goal.sum()
        if float(goal.sum()) != tot:
            tot = float(goal.sum())
            where = "in" if a < tot < b else where
    else:
        goal = {"float": float, "npfloat": np.float64, "0d": np.array}[form](tot)
        ctx.count("scalar_goals")
    before = np.array(goal, copy=True)
    c = Curve(f)
    # the object carries a potential in force: anything, or already close to the one asked for
    c.mu = rs.uniform(-20, 20)
    if where == "in" and r.random() < .6:
        x, y = lo, hi
        for _ in range(60):
            m = .5 * (x + y)
            x, y = (m, y) if float(np.sum(f(m))) < tot else (x, m)
        c.mu = x + r.choice([-1, 1]) * 10 ** rs.uniform(-7, -1)
        ctx.count("started_nearby")
    inforce = c.mu
    ctx.note(inforce=inforce, curve=k, bracket=(lo, hi), goal=goal, at_bracket=(a, b), where=where)
    kw = {} if br is None else {"bracket": br}
    if where in ("above", "below"):
        try:
            mu = adjust_mu(c, goal, **kw)
        except Exception:
            ctx.count("goals_refused")
        else:
            ctx.fail("an unreachable goal is reported as an error", returned=mu)
    else:
        try:
            mu = adjust_mu(c, goal, **kw)
        except ValueError:
            # at the very edge rounding may put the goal outside
            ctx.check(where == "edge" or not a < tot < b, "a reachable goal is met", goal=goal)
            ctx.count("edge_refused")
        else:
            ctx.check(np.ndim(mu) == 0 and np.isfinite(mu), "one finite potential", mu=mu)
            ctx.check(lo - 1e-9 <= mu <= hi + 1e-9, "the potential lies in the bracket", mu=mu)
            enclosed(ctx, f, float(mu), goal, "the occupation at the potential equals the goal")
            ctx.count("goals_met")
            if where == "in" and b - a > 1e-6:
                ctx.nontrivial(ctx.seed)
    ctx.check(np.array_equal(before, goal), "the goal is left as it was")
    ctx.check(c.mu == inforce, "the potential in force is left as it was", before=inforce, after=c.mu)
    ctx.check(len(c.q) > 0, "the occupation was evaluated")
    ctx.count("queries", len(c.q))


@chk.family("integrated", quick=14, thorough=300)
def integrated(ctx):
    """Occupation integrated by the library from a Green's function with known poles."""
    from edpyt.dmft import adjust_mu
    from edpyt.integrate_gf import integrate_gf
    rs, r = ctx.np, ctx.rng
    ns = r.choice([1, 2, 3])
    P, W = rs.uniform(-5, 5, (ns, 4)), rs.dirichlet(np.ones(4), ns)
    T = r.choice([3000., 10000., 30000.])
    kT = 8.617333262e-5 * T
    f = lambda mu: 2 * (W * sig((mu - P) / kT)).sum(1)
    c = Curve(lambda mu: 2 * np.asarray(integrate_gf(lambda z: (W / (z - P)).sum(1), mu, T=T, nzp=24)))
    goal = np.full(ns, 2 * rs.uniform(.1, .9))
    ctx.note(P=P, W=W, T=T, goal=goal)
    mu = adjust_mu(c, goal)
    # the quadrature (24 poles) is accurate to 1e-6 for |x| < ~200
    ctx.close(float(np.sum(f(mu))), float(goal.sum()), "thermal filling at the potential", atol=1e-5)
    ctx.count("goals_met")
    ctx.count("queries", len(c.q))
    ctx.nontrivial(ctx.seed)


@chk.family("library", quick=6, thorough=40)
def library(ctx):
    """Impurity and lattice objects of the library as they are handed to the search."""
    from edpyt.dmft import Gfimp, adjust_mu
    from edpyt import nano_dmft
    rs, r = ctx.np, ctx.rng
    if ctx.idx % 3 == 0:
        # non-interacting impurity: occupation known from the one-body spectrum
        n = r.choice([2, 3])
        g = Gfimp(n, nmats=8, U=0., beta=1e3)
        g.H[1:, 0] = g.H[0, 1:] = rs.uniform(.3, 1, n - 1)
        g.H[range(1, n), range(1, n)] = rs.uniform(-2, 2, n - 1)
        g.Delta.x[:n - 1], g.Delta.x[n - 1:] = np.diag(g.H)[1:], g.H[0, 1:]
        g.update(rs.normal())
        g.solve()
        w, u = np.linalg.eigh(g.H)
        beta = 1 / (8.617333262e-5 * 300)
        f = lambda mu: 2 * (u[0] ** 2 * sig(beta * (mu - w))).sum()
        goal = np.array([rs.uniform(.3, 1.7)])
        if r.random() < .6 and .1 < f(g.mu) < 1.9:
            goal[0] = f(g.mu + r.choice([-1, 1]) * 10 ** rs.uniform(-3.5, -1.5))   # nearly met already
        mu = adjust_mu(g, goal, bracket=(-6., 6.))
        ctx.note(H=g.H, goal=goal, mu=mu)
        enclosed(ctx, f, mu, goal + 0., "filling of the impurity", h=1e-4)
    else:
        # finite lattice without leads
        n = 2
        H = ref.rand_H(rs, n, "dense") * .5
        loc = nano_dmft.Gfloc(H, np.eye(n), lambda z: np.zeros((n, n)), np.arange(n), np.arange(n))
        loc.set_local(lambda z: np.zeros((n, np.size(z)), complex))
        loc.update(0.)
        w, u = np.linalg.eigh(H)
        f = lambda mu: 2 * (u ** 2 * sig(70. * (mu - w))).sum(1)
        goal = r.choice([np.full(n, rs.uniform(.4, 1.6)), np.array([rs.uniform(.8, 3.2)])])
        if r.random() < .5 and .2 < f(loc.mu).sum() < 3.8:
            goal = f(loc.mu + r.choice([-1, 1]) * 10 ** rs.uniform(-3.5, -1.5))
        mu0 = loc.mu
        mu = adjust_mu(loc, goal, bracket=(-4., 4.))
        ctx.note(H=H, goal=goal, mu=mu)
        ctx.close(float(f(mu).sum()), float(goal.sum()), "filling of the lattice", atol=2e-5)
        ctx.check(loc.mu == mu0, "the search leaves the lattice's own potential alone", before=mu0, after=loc.mu)
    ctx.count("library_objects")
    ctx.count("goals_met")
    ctx.nontrivial(ctx.seed)


chk.main()
