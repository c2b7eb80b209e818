"""C29: distributional exact diagonalisation: sampling, fit and averages."""
import random
import time

import numpy as np

import edp
import gfs
import ref
from vlib import Check

chk = Check("C29", needs=("psparse", "continued_fraction"), omp=2,
            rule="Densities of many shapes (with gaps, steps, peaks, zero edges, shared tables) and generators (random, numpy, "
                 "scripted at the ends of [0,1) and on the edges of empty regions); pole sets with clusters and coincidences of one "
                 "to twelve poles; both solver modules for one and two impurities with random interactions (scalar, matrix, "
                 "exchange and pair hopping), shifts, temperatures and buffers. Every draw of the generator is logged and the whole "
                 "calculation is replayed from the log by the reference: its own inverse distribution, an impurity model built "
                 "by an orthogonal rotation of the poles (no fit), full diagonalisation in second quantisation, Lehmann sums, "
                 "free-fermion entropies. Non-trivial: distinct case with an accepted sample of at least two poles, or a distinct "
                 "sampling or fitting problem.",
            assumptions=["energies are scaled to a window of about 0.02 (the sampling grid has a fixed absolute spacing of 1e-6)",
                         "cases decided by accident (levels or particle numbers equal within the library's 1e-7) are skipped and counted",
                         "dedlib_dev keeps three states per sector: compared exactly where the others carry no weight"],
            require={"draws": 1, "fits": 1, "accepted": 1, "rejected": 1, "self_energies": 1, "entropies": 1, "occupations": 1,
                     "noninteracting": 1, "two_impurities": 1})

DX = 1e-6


# ---------------------------------------------------------------- densities and generators

def density(r, lo, hi):
    """A density on [lo, hi] and its name; vectorised, not normalised."""
    w = hi - lo
    kind = r.choice(["flat", "gauss", "semi", "gap", "steps", "peak", "ramp", "table", "int"])
    c, s, g = lo + w * r.random(), w * r.choice([.05, .2, 1.]), r.random() * .4 + .1
    a, b = sorted([lo + w * r.random(), lo + w * r.random()])
    k = r.choice([.1, 1., 100.])
    mid, rad = (lo + hi) / 2, w / 2
    if kind == "flat":
        f = lambda e: k * np.ones_like(e)
    elif kind == "gauss":
        f = lambda e: k * np.exp(-((e - c) / s) ** 2)
    elif kind == "semi":
        f = lambda e: k * np.sqrt(np.maximum(0., 1 - ((e - mid) / rad) ** 2))
    elif kind == "gap":
        f = lambda e: k * (np.abs(e - mid) > g * rad).astype(float)
    elif kind == "steps":
        f = lambda e: k * ((e >= a).astype(float) + 3. * (e > b) * (e < hi - .1 * w)) + 0.
    elif kind == "peak":
        f = lambda e: k * (1e-3 + (np.abs(e - c) < .02 * w))
    elif kind == "ramp":
        f = lambda e: k * (e - lo)
    elif kind == "table":
        cache = {}
        def f(e):
            key = (e.size, float(e[0]))
            if key not in cache:
                cache[key] = k * (1.5 + np.cos(7 * (e - lo) / w))
            return cache[key]
    else:
        f = lambda e: 1 + (e > c).astype(int)
    if np.sum(f(np.linspace(lo, hi, 501))) <= 0:
        return (lambda e: np.ones_like(e)), "flat"
    return f, kind


class Limit(Exception):
    pass


class Log(object):
    """A generator that keeps what it handed out."""

    def __init__(self, src, cap=10 ** 9):
        self.src, self.u, self.cap = src, [], cap
        self.start = time.process_time()

    def random(self, *a):
        # a run that has drawn a lot, or for long (large models), is given up
        if len(self.u) >= self.cap or time.process_time() - self.start > 20:
            raise Limit()
        u = float(self.src.random(*a))
        self.u.append(u)
        return u


class Script(object):
    def __init__(self, us):
        self.us, self.k = list(us), 0

    def random(self):
        self.k += 1
        return self.us[(self.k - 1) % len(self.us)]


def generator(r):
    k = r.choice(["random", "state", "new"])
    s = r.randrange(10 ** 9)
    return random.Random(s) if k == "random" else np.random.RandomState(s) if k == "state" else np.random.default_rng(s)


class Inverse(object):
    """Independent inverse distribution on the documented grid."""

    def __init__(self, f, lo, hi, nsamples=1e6):
        m = int((hi - lo) * nsamples + 1)
        self.x = lo + (hi - lo) * np.arange(m) / max(1, m - 1)
        self.p = np.array(f(np.linspace(lo, hi, m)), dtype=np.longdouble)
        c = np.cumsum(self.p)
        self.c = c / c[-1]

    def __call__(self, u):
        return min(int(np.searchsorted(self.c, np.longdouble(u), side="right")), self.x.size - 1)

    def pole(self, u):
        return float(self.x[self(u)])


@chk.family("sampling", quick=60, thorough=1500)
def sampling(ctx):
    import edpyt.dedlib as A
    import edpyt.dedlib_dev as B
    r = ctx.rng
    mod = r.choice([A, B])
    lo = r.choice([-1., 0., -.01, 5., -300.]) * r.choice([1., r.random()])
    width = r.choice([.003, .01, .02]) if r.random() < .7 else r.choice([1., 8.])
    ns = 1e6 if width < .1 else r.choice([200., 3000.])
    hi = lo + width
    f, kind = density(r, lo, hi)
    keep = np.array(f(np.linspace(lo, hi, 77)))
    n = r.choice([1, 2, 3, 5, 12])
    inv = Inverse(f, lo, hi, ns)
    # edges: both ends, both sides of every jump from/to zero density
    pos = np.flatnonzero(inv.p > 0)
    edges = [0., 5e-324, 1e-17, np.nextafter(1., 0.), .5]
    jump = pos[np.flatnonzero(np.diff(pos) > 1)]
    for j in jump[:3]:
        for d in (-1e-13, 0., 1e-13):
            edges.append(min(max(float(inv.c[j]) + d, 0.), np.nextafter(1., 0.)))
    scripted = r.random() < .5
    rng = Log(Script(r.sample(edges, len(edges)) if scripted else [0]) if scripted else generator(r))
    args = (f, [lo, hi], n, rng) + ((ns,) if ns != 1e6 else ())
    rs = mod.RandomSampler(*args)
    ctx.note(module=mod.__name__, lims=(lo, hi), n=n, density=kind, scripted=scripted)
    for rep in range(r.choice([3, 12])):
        k = len(rng.u)
        rs()
        us = rng.u[k:]
        ctx.check(len(us) == n, "one draw per pole", draws=len(us))
        p = np.array(rs.poles)
        ctx.check(p.shape == (n,) and bool(np.all(np.diff(p) >= 0)), "poles are sorted", poles=p)
        ctx.check(bool(np.all((p >= lo) & (p <= hi))), "poles lie in the sampling range", poles=p)
        h = width / max(1, inv.x.size - 1)
        idx = np.rint((p - lo) / h).astype(int)
        ctx.check(bool(np.all(np.abs(p - inv.x[idx]) <= 1e-9 * max(1., abs(lo)) + 1e-3 * h)), "poles lie on the grid of the distribution", poles=p)
        ctx.check(bool(np.all(inv.p[idx] > 0)), "no pole where the density vanishes", poles=p, density=inv.p[idx], draws=us)
        lower = np.where(idx > 0, inv.c[idx - 1], 0.)
        su = np.sort(us)
        ctx.check(bool(np.all((su >= lower - 1e-10) & (su <= inv.c[idx] + 1e-10))),
                  "every pole is the quantile of its draw", draws=su, poles=p, low=lower, high=inv.c[idx])
        ctx.count("draws", n)
    ctx.check(np.array_equal(keep, np.array(f(np.linspace(lo, hi, 77)))) , "the given density is left alone")
    if kind == "table":
        again = Inverse(f, lo, hi, ns)
        ctx.check(np.array_equal(again.p, inv.p), "the user's table is left alone")
    ctx.nontrivial(kind, n, scripted, lo, hi)


@chk.family("statistics", quick=6, thorough=60)
def statistics(ctx):
    """Empirical distribution of real generators (Dvoretzky-Kiefer-Wolfowitz bound)."""
    import edpyt.dedlib as A
    import edpyt.dedlib_dev as B
    r = ctx.rng
    lo = r.uniform(-1, 1)
    hi = lo + .01
    f, kind = density(r, lo, hi)
    n, m = r.choice([1, 3]), 3000
    rs = r.choice([A, B]).RandomSampler(f, [lo, hi], n, generator(r))
    P = []
    for _ in range(m // n):
        rs()
        P.extend(rs.poles.tolist())
    P = np.sort(P)
    inv = Inverse(f, lo, hi)
    idx = np.clip(np.rint((P - lo) / DX).astype(int), 0, inv.x.size - 1)
    k = np.arange(1, P.size + 1) / P.size
    last = np.append(P[1:] != P[:-1], True)
    dev = np.max(np.abs(k[last] - inv.c[idx][last].astype(float)))
    bound = np.sqrt(np.log(2 / 1e-15) / (2 * P.size))
    ctx.check(dev < bound, "the poles follow the density", deviation=dev, bound=bound, density=kind)
    ctx.count("draws", P.size)
    ctx.nontrivial(kind, lo)


# ---------------------------------------------------------------- fit

def pole_set(r, n, scale):
    k = r.choice(["random", "cluster", "grid", "duplicate", "wide", "tiny"])
    p = [r.uniform(-1, 1) for _ in range(n)]
    if k == "cluster":
        c = r.uniform(-1, 1)
        p = [c + r.uniform(-1, 1) * 1e-4 if r.random() < .6 else x for x in p]
    elif k == "grid":
        p = [r.randint(-3, 3) / 3. + r.choice([0, 1e-6]) * r.randint(0, 5) for _ in range(n)]
    elif k == "duplicate":
        p = [p[0] if r.random() < .5 else x for x in p]
    elif k == "wide":
        p = [x * 10 ** r.uniform(-3, 1) for x in p]
    elif k == "tiny":
        p = [r.choice([-1, 1]) * r.randint(0, 3) * 1e-6 / scale for _ in range(n)]
    return np.sort(np.array(p) * scale), k


class Poles(object):
    """Stands in for the sampler (poles set by hand)."""

    def __init__(self, n):
        self.poles = np.empty(n)

    def __call__(self):
        pass


@chk.family("fit", quick=150, thorough=8000)
def fit(ctx):
    import edpyt.dedlib as A
    import edpyt.dedlib_dev as B
    r, rs = ctx.rng, ctx.np
    mod = r.choice([A, B])
    n = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 12])
    src = Poles(n)
    gf0, imp = mod.Gf0(src), mod.Gfimp(n)
    for rep in range(r.choice([1, 3])):                     # the objects are reused from sample to sample
        scale = r.choice([.01, 1., 1., 10.])
        p, kind = pole_set(r, n, scale)
        src.poles[:] = p
        gf0.sample()
        imp.fit(gf0)
        ctx.note(poles=p, kind=kind, module=mod.__name__)
        w = max(scale, p[-1] - p[0])
        z = rs.uniform(p[0] - .3 * w, p[-1] + .3 * w, 8) + 1j * w * 10 ** rs.uniform(-2, .5, 8) * rs.choice([1, -1], 8)
        want = np.mean(1 / (z[:, None] - p[None, :]), axis=1)
        ctx.close(np.asarray(gf0(z)) * w, want * w, "Green's function of the poles", atol=1e-10, rtol=1e-10)
        ctx.close(np.asarray(imp(z)) * w, want * w, "Green's function of the fitted model", atol=2e-7, rtol=2e-7)
        x = p[0] + (p[-1] - p[0]) * r.random() + w * .013
        if np.min(np.abs(x - p)) > 1e-3 * w:
            ctx.close(gf0.derivative(x), -np.mean((x - p) ** -2), "slope of the Green's function", rtol=1e-10)
        ek, v2 = np.array(imp.ek), np.array(imp.vk2)
        ctx.check(ek.shape == (n - 1,) and v2.shape == (n - 1,), "one bath level per gap", ek=ek)
        tol = 1e-10 * w
        ctx.check(bool(np.all((ek >= p[:-1] - tol) & (ek <= p[1:] + tol))), "bath levels lie between neighbouring poles", ek=ek, poles=p)
        ctx.check(bool(np.all(v2 >= 0)) and bool(np.all((v2 > 0) | (np.diff(p) <= 1e-7 * w))), "squared couplings are positive", v2=v2, poles=p)
        ctx.close(imp.e0, np.mean(p), "impurity level", atol=1e-10 * w)
        d = (v2 / (z[:, None] - ek[None, :])).sum(1) if n > 1 else np.zeros(z.size)
        got = np.asarray(imp.delta(z))
        ctx.close(got.sum(1) / w, d / w, "hybridisation", atol=1e-9, rtol=1e-9)
        # the star matrix has the poles as levels, with equal weight on the impurity
        H = np.zeros((n, n)) if rep == 0 else rs.normal(size=(n, n)) * 0 + np.diag(rs.normal(size=n))
        V = np.zeros((n, n))
        if mod is A:
            U = r.choice([0., 1.3])
            mod.build_siam(H, V, U, imp)
            ctx.check(V[0, 0] == U and np.count_nonzero(V) == (U != 0), "interaction of the impurity", V=V)
        else:
            mod.build_siam(H, imp)
        ctx.check(np.array_equal(H, H.T), "the model is symmetric", H=H)
        e, v = np.linalg.eigh(H)
        ctx.close(e / w, p / w, "levels of the model", atol=2e-7)
        if n == 1 or np.min(np.diff(p)) > 1e-3 * w:
            ctx.close(v[0] ** 2, np.full(n, 1. / n), "impurity weight of every level", atol=1e-5)
        ctx.count("fits")
        ctx.nontrivial(kind, n, tuple(np.round(p / w, 9)))


@chk.family("moam", quick=40, thorough=1500)
def moam(ctx):
    """Matrix of several impurities, each with its own bath."""
    import edpyt.dedlib as A
    import edpyt.dedlib_dev as B
    r = ctx.rng
    mod = r.choice([A, B])
    nimp, m = r.choice([1, 2, 2, 3]), r.choice([1, 2, 3, 4])
    n = nimp * m
    imps, Ps = [], []
    for i in range(nimp):
        src = Poles(m)
        src.poles[:] = np.sort([r.uniform(-1, 1) for _ in range(m)])
        g, imp = mod.Gf0(src), mod.Gfimp(m)
        imp.fit(g)
        imps.append(imp)
        Ps.append(src.poles)
    H = np.zeros((n, n))
    for rep in range(2):
        mod.build_moam(H, imps)
        H.flat[:nimp * (n + 1):n + 1] -= 0.
    ctx.check(np.array_equal(H, H.T), "the model is symmetric", H=H)
    own = [[i] + list(range(nimp + i * (m - 1), nimp + (i + 1) * (m - 1))) for i in range(nimp)]
    for i in range(nimp):
        for j in range(nimp):
            B_ = H[np.ix_(own[i], own[j])]
            if i != j:
                ctx.check(not B_.any(), "impurities share no bath", H=H, pair=(i, j))
            else:
                ctx.close(np.linalg.eigvalsh(B_), Ps[i], "levels of impurity %d" % i, atol=1e-7)
                ctx.close(B_[0, 0], np.mean(Ps[i]), "level of impurity %d" % i, atol=1e-9)
                ctx.check(np.count_nonzero(B_[1:, 1:] - np.diag(np.diag(B_[1:, 1:]))) == 0, "bath levels are independent", H=H)
    ctx.nontrivial("moam", nimp, m, H[0, 0])


# ---------------------------------------------------------------- solvers

def rotate(p):
    """A model whose first site has equal weight on every pole: orthogonal rotation, no fit."""
    n = p.size
    M = np.eye(n)
    M[:, 0] = 1.
    Q, _ = np.linalg.qr(M)
    if n > 1 and Q[0, 0] < 0:
        Q[:, 0] *= -1
    H = Q.T.dot(np.diag(p)).dot(Q)
    return (H + H.T) / 2


def fermi(ek, beta):
    """ln Z and <H - E0> of free fermions of both spins."""
    x = beta * np.abs(ek)
    return 2 * np.log1p(np.exp(-x)).sum(), 2 * (np.abs(ek) / (np.exp(np.minimum(x, 700.)) + 1)).sum()


def entropy(E, beta, bath):
    w = [(e - E.egs, np.exp(-beta * (e - E.egs))) for _, e, _ in E.sec.values()]
    Z = sum(x.sum() for _, x in w)
    H = sum((d * x).sum() for d, x in w) / Z
    l, h = fermi(bath, beta)
    return np.log(Z) + beta * H - l - beta * h


class Ambiguous(Exception):
    pass


EPS = 1e-7      # the library's own degeneracy threshold


def ground(E):
    """Sectors holding a ground state; raises if that depends on the threshold."""
    out = []
    for q, (st, e, v) in E.sec.items():
        d = e[0] - E.egs
        if 1e-9 < d < 10 * EPS:
            raise Ambiguous("sectors")
        if d <= 1e-9:
            out.append(q)
    return out


def ground_vector(E, q):
    st, e, v = E.sec[q]
    if e.size > 1 and e[1] - e[0] < 10 * EPS:
        raise Ambiguous("degenerate ground state")
    return st, v[:, 0]


def site_occ(E, st, v, k):
    n = E.n
    return (v ** 2 * (((st >> k) & 1) + ((st >> (k + n)) & 1))).sum()


def thermal_occ(E, beta):
    up, dw = E.occupation(beta)
    return up + dw


def dropped(E, beta, keep):
    """Weight of the states beyond the `keep` lowest of each sector."""
    return sum(np.exp(-beta * (e[keep:] - E.egs)).sum() for _, e, _ in E.sec.values())


def problem(ctx, s, nimp):
    r = ctx.rng
    lo, hi = -s * r.uniform(.3, 1), s * r.uniform(.3, 1)
    f = [density(r, lo, hi) for _ in range(nimp)]
    if nimp > 1 and r.random() < .3:
        f = [f[0]] * nimp
    z = np.concatenate([[lo], np.sort([r.uniform(lo, hi) for _ in range(4)]), [hi]]) + 1j * s * r.choice([.05, .2, 1.])
    if r.random() < .2:
        z = z.conj()
    beta = r.choice([3., 20., 200., 1e4]) / s
    return lo, hi, f, z, beta


def sig_tol(E, beta, z, G, s):
    eta = np.abs(z.imag)
    dG = (1e-8 + 1e-11 * beta * s) / eta * (1 + s / eta)
    return 5 * dG / np.abs(G) ** 2 + 1e-7 * s


def compare(ctx, got, want, what, tol):
    d = np.abs(np.asarray(got) - want)
    ctx.count("assertions")
    ctx.check(bool(np.all(d <= tol)), what, got=got, want=want, worst=float(np.max(d / tol)))


def siam_sample(poles, U, sigma0):
    H = rotate(poles)
    bath = np.linalg.eigvalsh(H[1:, 1:]) if poles.size > 1 else np.zeros(0)
    e, v = np.linalg.eigh(H)
    H1 = H.copy()
    H1[0, 0] -= sigma0
    V = np.zeros_like(H)
    V[0, 0] = U
    return H, H1, V, bath, e, v


def run(ctx, fn, kw, cap):
    """Run a solver on a logged generator; None if it needs more draws than the cap."""
    log = Log(generator(ctx.rng), cap)
    try:
        out = fn(rng=log, **kw)
    except Limit:
        ctx.count("unlucky")
        return None, log
    return out, log


@chk.family("siam", quick=30, thorough=650)
def siam(ctx):
    import edpyt.dedlib as A
    r = ctx.rng
    s = r.choice([.01, .02])
    n = r.choice([1, 2, 3, 3, 3, 4])
    lo, hi, [(f, kind)], z, beta = problem(ctx, s, 1)
    free = r.random() < .2
    U = 0. if free else s * r.choice([.05, .5, 2.]) * r.choice([1., 1., 1., -.3])
    kw = dict(dos=f, z=z, n=n, N=r.choice([1, 2, 3]), U=U, beta=beta)
    sigma0 = U / 2
    if r.random() < .4 and not free:
        sigma0 = kw["sigma0"] = U / 2 + s * r.choice([.1, .1, .4]) * r.uniform(-1, 1)
    buf = None
    if r.random() < .4:
        buf = kw["sigma"] = np.zeros_like(z)
    ctx.note(lims=(lo, hi), density=kind, z=z, beta=beta, n=n, U=U, sigma0=sigma0, N=kw["N"], buffer=buf is not None)
    zc = z.copy()
    out, log = run(ctx, A.siam_solve, kw, 24 * n)
    ctx.check(np.array_equal(z, zc), "frequencies are left alone")
    if out is None:
        return
    ctx.check(len(out) == (3 if buf is not None else 4), "buffer given: occupations and entropy only", got=len(out))
    sig = buf if buf is not None else out[0]
    o0, o1, S = out[-3:]
    inv = Inverse(f, lo, hi)
    ps = [np.sort([inv.pole(u) for u in log.u[k:k + n]]) for k in range(0, len(log.u), n)]
    want, w0, w1, wS, acc, tol = np.zeros(z.size, complex), 0., 0., 0., 0, 0.
    try:
        for p in ps:
            ctx.check(acc < kw["N"], "no sample is drawn once N are accepted", draws=len(log.u))
            H, H1, V, bath, e, v = siam_sample(p, U, sigma0)
            if np.min(np.abs(e)) < 10 * EPS:
                raise Ambiguous("pole at the Fermi level")
            k0 = int((e < 0).sum())
            E = ref.Ensemble(H1, V, n)
            g = ground(E)
            if (k0, k0) not in g:
                ctx.count("rejected")
                continue
            if len(g) > 1:
                raise Ambiguous("several ground states")
            acc += 1
            st, gv = ground_vector(E, (k0, k0))
            w0 += 2 * (v[0, :k0] ** 2).sum()
            w1 += site_occ(E, st, gv, 0)
            wS += entropy(E, beta, bath)
            G = ref.lehmann(*E.poles(beta, 0, 0), z=z)
            want += 1 / np.mean(1 / (z[:, None] - p[None, :]), axis=1) - 1 / G
            tol = np.maximum(tol, sig_tol(E, beta, z, G, s))
    except Ambiguous as a:
        ctx.count("ambiguous")
        return
    ctx.eq(acc, kw["N"], "the run stops at the requested number of accepted samples")
    N = float(kw["N"])
    compare(ctx, sig, want / N, "averaged self-energy", tol)
    # the rotation of the bath reproduces the fitted model to the precision of the root search
    ctx.close(o0, w0 / N, "non-interacting occupation", atol=2e-5)
    ctx.close(o1, w1 / N, "interacting occupation", atol=2e-5)
    ctx.close(S, wS / N, "entropy", atol=1e-5 + 1e-8 * beta * s)
    ctx.check(-1e-12 <= o0 <= 2 + 1e-12 and -1e-12 <= o1 <= 2 + 1e-12, "occupations lie between zero and two", got=(o0, o1))
    if free:
        compare(ctx, sig, 0., "no interaction, no self-energy", tol)
        ctx.close(o1, o0, "no interaction, same occupation", atol=1e-9)
        ctx.count("noninteracting")
    ctx.count("accepted", acc)
    ctx.count("self_energies", z.size)
    ctx.count("entropies")
    ctx.count("occupations", 2)
    if n > 1:
        ctx.nontrivial(kind, n, U, tuple(ps[0]))


@chk.family("siam_dev", quick=22, thorough=500)
def siam_dev(ctx):
    """dedlib_dev: three states per sector, every sample weighted by its departure from the constraint."""
    import edpyt.dedlib_dev as B
    r = ctx.rng
    s = r.choice([.01, .02])
    n = r.choice([2, 3, 3, 4])
    lo, hi, [(f, kind)], z, beta = problem(ctx, s, 1)
    if r.random() < .7:
        beta = r.choice([200., 1e3]) / s
    free = r.random() < .2
    U = 0. if free else s * r.choice([.05, .5, 2.])
    kw = dict(dos=f, z=z, n=n, N=r.choice([1, 2, 3]), U=U, beta=beta)
    sigma0 = U / 2
    if r.random() < .4 and not free:
        sigma0 = kw["sigma0"] = U / 2 + s * r.choice([.1, .1, .4]) * r.uniform(-1, 1)
    ctx.note(lims=(lo, hi), density=kind, z=z, beta=beta, n=n, U=U, sigma0=sigma0, N=kw["N"])
    out, log = run(ctx, B.ded_solve, kw, 24 * n)
    if out is None:
        return
    sig, o0, o1, S = out
    ctx.check(-1e-9 <= o0 <= 2 + 1e-9 and -1e-9 <= o1 <= 2 + 1e-9, "occupations lie between zero and two", got=(o0, o1))
    ctx.count("occupations", 2)
    inv = Inverse(f, lo, hi)
    ps = [np.sort([inv.pole(u) for u in log.u[k:k + n]]) for k in range(0, len(log.u), n)]
    want, w0, w1, wS, acc, tol, Q = np.zeros(z.size, complex), 0., 0., 0., 0, 0., 0.
    try:
        for p in ps:
            ctx.check(acc < kw["N"], "no sample is drawn once N are accepted", draws=len(log.u))
            H, H1, V, bath, e, v = siam_sample(p, U, sigma0)
            if np.min(np.abs(e)) < 10 * EPS:
                raise Ambiguous("pole at the Fermi level")
            k0 = int((e < 0).sum())
            E0, E = ref.Ensemble(H, V * 0, n), ref.Ensemble(H1, V, n)
            if dropped(E0, beta, 3) > 1e-8 or dropped(E, beta, 3) > 1e-8:
                raise Ambiguous("discarded states matter")
            g = ground(E)
            if len(g) > 1 and (k0, k0) in g:
                raise Ambiguous("several ground states")
            acc += (k0, k0) in g
            ctx.count("accepted" if (k0, k0) in g else "rejected")
            q = np.exp(-beta * (E.sec[k0, k0][1][0] - E.egs))
            Q += q
            w0 += q * thermal_occ(E0, beta)[0]
            w1 += q * thermal_occ(E, beta)[0]
            wS += q * entropy(E, beta, bath)
            G = ref.lehmann(*E.poles(beta, 0, 0), z=z)
            want += q * (1 / np.mean(1 / (z[:, None] - p[None, :]), axis=1) - 1 / G)
            tol = np.maximum(tol, sig_tol(E, beta, z, G, s))
            if n > 3:
                # recursions of twenty and more steps
                R = Full(E, beta)
                tol = tol + R.slack([0], 0, z) / np.abs(G) ** 2 * 3
    except Ambiguous:
        ctx.count("ambiguous")
        return
    ctx.eq(acc, kw["N"], "the run stops at the requested number of accepted samples")
    compare(ctx, sig, want / Q, "averaged self-energy", tol)
    ctx.close(o0, w0 / Q, "non-interacting occupation", atol=2e-5)
    ctx.close(o1, w1 / Q, "interacting occupation", atol=2e-5)
    ctx.close(S, wS / Q, "entropy", atol=1e-5 + 1e-8 * beta * s)
    if free:
        compare(ctx, sig, 0., "no interaction, no self-energy", tol)
        ctx.close(o1, o0, "no interaction, same occupation", atol=1e-6)
        ctx.count("noninteracting")
    ctx.count("self_energies", z.size)
    ctx.count("entropies")
    ctx.nontrivial("dev", kind, n, U, tuple(ps[0]))


class Full(gfs.Retained):
    """Lanczos error bound with the ensemble of the reference."""

    def __init__(self, E, beta):
        self.n, self.beta, self.egs = E.n, beta, E.egs
        self.E = E
        self.states = {q: (e[:3], v[:, :3]) for q, (st, e, v) in E.sec.items()}
        self.Z = E.Z(beta)

    def arrival(self, q):
        return self.E.sec[q]


def interaction(ctx, nimp, s):
    """(argument for the solvers, interaction in the reference's format on the first nimp sites, diagonal)"""
    r, rs = ctx.rng, ctx.np
    k = r.choice(["scalar", "diag", "matrix", "dict", "exchange", "exchange"])
    u = s * r.choice([.1, .5, 2.])
    D = np.diag(np.full(nimp, u)) if k == "scalar" else np.diag(u * rs.uniform(.5, 1.5, nimp))
    if k == "scalar":
        return u, D, k
    if k in ("matrix", "exchange") and nimp > 1:
        W = rs.uniform(0, .4, (nimp, nimp)) * u
        D = D + np.triu(W, 1) + np.triu(W, 1).T
    if k in ("diag", "matrix"):
        return D, D, k
    V = {"U": D}
    if k == "exchange" and nimp > 1:
        V["Jx"] = ref.rand_J(rs, nimp, 1.) * .1 * u
        if r.random() < .6:
            V["Jp"] = ref.rand_J(rs, nimp, 1.) * r.choice([.1, .5]) * u
    return {a: b.copy() for a, b in V.items()}, V, k


def embed(V, nimp, n):
    def one(a):
        M = np.zeros((n, n))
        M[:nimp, :nimp] = a
        return M
    return {k: one(a) for k, a in V.items()} if isinstance(V, dict) else one(V)


def multi(ctx, dev):
    import edpyt.dedlib as A
    import edpyt.dedlib_dev as B
    r = ctx.rng
    s = r.choice([.01, .02])
    nimp, m = r.choice([(2, 2), (2, 2), (2, 1), (1, 3), (1, 2), (3, 1)])
    n = nimp * m
    lo, hi, fs, z, beta = problem(ctx, s, nimp)
    if dev or r.random() < .5:
        beta = r.choice([200., 1e3, 2e3]) / s
    Ua, Ur, kind = interaction(ctx, nimp, s)
    free = r.random() < .2
    if free:
        Ua, Ur, kind = (0. if r.random() < .5 else np.zeros((nimp, nimp))), np.zeros((nimp, nimp)), "zero"
    Ud = np.diag(Ur["U"] if isinstance(Ur, dict) else Ur)
    kw = dict(dos=[f for f, _ in fs], z=z, n=n, N=r.choice([1, 2]), U=Ua, beta=beta)
    shift = Ud / 2
    # an inter-impurity density interaction has its own mean-field shift
    if (kind in ("matrix", "exchange") or r.random() < .3) and not free:
        D = Ur["U"] if isinstance(Ur, dict) else Ur
        shift = kw["sigma0"] = Ud / 2 + (D.sum(1) - Ud) + s * r.choice([.05, .05, .3]) * ctx.np.uniform(-1, 1, nimp)
    buf = None
    if r.random() < .4:
        buf = kw["sigma"] = np.zeros((nimp, z.size), complex)
    ctx.note(lims=(lo, hi), densities=[k for _, k in fs], z=z, beta=beta, n=n, nimp=nimp, U=Ua, sigma0=shift, N=kw["N"],
             buffer=buf is not None, interaction=kind)
    frz = edp.Frozen(z=z, **({"U": Ua} if isinstance(Ua, np.ndarray) else {k: v for k, v in Ua.items()} if isinstance(Ua, dict) else {}))
    out, log = run(ctx, B.ded_solve_multi if dev else A.moam_solve, kw, 16 * n)
    frz.verify(ctx)
    if out is None:
        return
    if buf is not None:
        sig, o0, o1 = buf, out[0], out[1]
    else:
        sig, o0, o1 = out[:3]
    ctx.check(np.shape(sig) == (nimp, z.size) and np.shape(o0) == np.shape(o1) == (nimp,), "one result per impurity")
    o0, o1 = np.asarray(o0), np.asarray(o1)
    ctx.check(bool(np.all((o0 > -1e-9) & (o0 < 2 + 1e-9) & (o1 > -1e-9) & (o1 < 2 + 1e-9))), "occupations lie between zero and two", got=(o0, o1))
    ctx.count("occupations", 2 * nimp)
    invs = [Inverse(f, lo, hi) for f, _ in fs]
    V = embed(Ur, nimp, n)
    own = [[i] + list(range(nimp + i * (m - 1), nimp + (i + 1) * (m - 1))) for i in range(nimp)]
    us = np.array(log.u).reshape(-1, nimp, m)
    want, Q, w0, w1, tol = np.zeros((nimp, z.size), complex), np.zeros(nimp), np.zeros(nimp), np.zeros(nimp), np.zeros((nimp, z.size))
    acc = 0
    try:
        for u in us:
            ctx.check(acc < kw["N"], "no sample is drawn once N are accepted", draws=len(log.u))
            ps = [np.sort([invs[i].pole(x) for x in u[i]]) for i in range(nimp)]
            H = np.zeros((n, n))
            for i in range(nimp):
                H[np.ix_(own[i], own[i])] = rotate(ps[i])
                if np.min(np.abs(ps[i])) < 10 * EPS:
                    raise Ambiguous("pole at the Fermi level")
            H1 = H.copy()
            for i in range(nimp):
                H1[i, i] -= shift[i]
            E = ref.Ensemble(H1, V, n)
            if dev:
                E0 = ref.Ensemble(H, np.zeros((n, n)), n)
                if dropped(E0, beta, 3) > 1e-10 or dropped(E, beta, 3) > 1e-10:
                    raise Ambiguous("discarded states matter")
                # states below the cutoff 1e-9 are discarded by the solver, which decides numbers equal within 1e-7
                t0, t1 = thermal_occ(E0, beta), thermal_occ(E, beta)
                N0, N1 = [t0[q].sum() for q in own], [t1[q].sum() for q in own]
                x0, x1 = t0[:nimp], t1[:nimp]
                band = (2e-8, 1e-6)
            else:
                N0 = [2 * (p < 0).sum() for p in ps]
                x0 = np.array([2. * (p < 0).sum() / m for p in ps])
                opts = []
                for q in ground(E):
                    st, gv = ground_vector(E, q)
                    opts.append([site_occ(E, st, gv, k) for k in range(n)])
                opts = np.array(opts)
                if np.ptp(opts, axis=0).max() > 1e-8:
                    raise Ambiguous("several ground states")
                t1 = opts[0]
                N1 = [t1[q].sum() for q in own]
                x1 = t1[:nimp]
                band = (1e-9, 1e-3)
            hit = False
            for i in range(nimp):
                d = abs(N1[i] - N0[i])
                if band[0] < d < band[1]:
                    raise Ambiguous("particle number")
                if d >= band[1]:
                    ctx.count("rejected")
                    continue
                hit = True
                ctx.count("accepted")
                G = ref.lehmann(*E.poles(beta, i, i), z=z)
                want[i] += 1 / np.mean(1 / (z[:, None] - ps[i][None, :]), axis=1) - 1 / G
                w0[i] += x0[i]
                w1[i] += x1[i]
                Q[i] += 1
                t = sig_tol(E, beta, z, G, s)
                if n > 3:
                    t = t + Full(E, beta).slack([i], 0, z) / np.abs(G) ** 2 * 3
                tol[i] = np.maximum(tol[i], t)
            acc += hit
    except Ambiguous:
        ctx.count("ambiguous")
        return
    ctx.eq(acc, kw["N"], "the run stops at the requested number of accepted samples")
    for i in range(nimp):
        q = max(Q[i], 1.)
        compare(ctx, sig[i], want[i] / q, "averaged self-energy of impurity %d" % i, tol[i] + 1e-12 * s)
        ctx.close(o0[i], w0[i] / q, "non-interacting occupation of impurity %d" % i, atol=2e-5)
        ctx.close(o1[i], w1[i] / q, "interacting occupation of impurity %d" % i, atol=2e-5)
    if free:
        compare(ctx, sig, 0., "no interaction, no self-energy", tol + 1e-12 * s)
        ctx.close(o1, o0, "no interaction, same occupation", atol=1e-6)
        ctx.count("noninteracting")
    ctx.count("self_energies", nimp * z.size)
    if nimp > 1:
        ctx.count("two_impurities")
    ctx.nontrivial(dev, kind, n, nimp, float(us[0, 0, 0]))


@chk.family("multi", quick=36, thorough=600)
def moam_solver(ctx):
    multi(ctx, False)


@chk.family("multi_dev", quick=18, thorough=360)
def multi_dev(ctx):
    multi(ctx, True)


@chk.family("entropy", quick=24, thorough=800)
def entropies(ctx):
    import edpyt.dedlib as A
    import edpyt.dedlib_dev as B
    from edpyt.espace import build_espace
    from scipy.constants import physical_constants
    kB = physical_constants["Boltzmann constant in eV/K"][0]
    r = ctx.rng
    mod = r.choice([A, B])
    n = r.choice([1, 2, 3])
    s = r.choice([.1, 1., 5.])
    p, kind = pole_set(r, n, s)
    src = Poles(n)
    src.poles[:] = p
    g, imp = mod.Gf0(src), mod.Gfimp(n)
    imp.fit(g)
    beta = r.choice([.01, 1., 20., 1e3]) / s
    U = s * r.choice([0., .1, 2., 30.])
    H = rotate(p)
    bath = np.linalg.eigvalsh(H[1:, 1:])
    H[0, 0] -= r.choice([0., U / 2])
    V = np.zeros((n, n))
    V[0, 0] = U
    ctx.note(poles=p, beta=beta, U=U, module=mod.__name__)
    espace, egs = build_espace(H, V)
    S = mod.get_entropy(imp, espace, egs, beta) / kB
    E = ref.Ensemble(H, V, n)
    want = entropy(E, beta, bath)
    ctx.close(S, want, "entropy of the model minus that of its bath", atol=1e-6 + 1e-8 * beta * s, rtol=1e-6)
    if n == 1 and U == 0:
        x = beta * abs(H[0, 0])
        ctx.close(S, 2 * (np.log1p(np.exp(-x)) + x / (np.exp(min(x, 700.)) + 1)), "entropy of a free level", atol=1e-8)
    ctx.count("entropies")
    ctx.nontrivial(kind, n, U, tuple(p))


@chk.family("smooth", quick=30, thorough=800)
def smooth(ctx):
    """Smoothing: linear, keeps slow and removes fast oscillations, zero outside the data."""
    import edpyt.dedlib as A
    import edpyt.dedlib_dev as B
    r, rs = ctx.rng, ctx.np
    f = r.choice([A, B]).smooth
    lo, w = r.uniform(-5, 0), r.choice([1., 4., 10.])
    e = np.linspace(lo, lo + w, int(r.choice([300, 1001])))
    cut = r.choice([None, 2, 5., 10.])
    kw = {} if cut is None else {"cutoff": cut}
    c = complex(r.uniform(-2, 2), r.uniform(-2, 2))
    x = rs.uniform(lo, lo + w, 20)
    ctx.close(f(e, np.full(e.size, c), **kw)(x), np.full(20, c), "a constant is kept", atol=1e-9)
    a, b = rs.normal(size=e.size) + 1j * rs.normal(size=e.size), rs.normal(size=e.size) + 1j * rs.normal(size=e.size)
    k = r.uniform(-2, 2)
    ctx.close(f(e, a + k * b, **kw)(x), f(e, a, **kw)(x) + k * f(e, b, **kw)(x), "smoothing is linear", atol=1e-9)
    far = np.array([lo - 1e-3, lo + w + 1e-3, lo - 100., lo + w + 100.])
    ctx.check(not np.any(f(e, np.full(e.size, c), **kw)(far)), "zero outside the data")
    # harmonics of the internal mesh (spacing 0.01, one period longer than the window by one spacing)
    m = int((e.max() - e.min()) / 1e-2 + 1)
    L = w * m / (m - 1.)
    fine = np.linspace(lo, lo + w, m)
    cc = 2. if cut is None else float(cut)
    lowk, highk = int(.6 * cc * L), int(1.5 * cc * L) + 1
    for kk, kept in ((lowk, True), (highk, False)):
        sg = np.exp(2j * np.pi * kk * (fine - lo) / L)
        sg = sg.real if r.random() < .5 else sg
        got = f(fine, sg.astype(complex), **kw)(fine[3:-3:7])
        if kk >= m // 2:
            continue
        ctx.close(got, sg[3:-3:7].astype(complex) * kept, "harmonic %g is %s" % (kk / L, "kept" if kept else "removed"), atol=1e-7)
    ctx.count("smoothed")
    ctx.nontrivial(lo, w)


chk.main()
