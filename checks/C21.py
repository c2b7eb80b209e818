"""C21: cotunnelling amplitudes, rates, conservation and detailed balance."""
import numpy as np

import edp
import ref
from thermal import regularised
from vlib import Check

chk = Check("C21", needs=("psparse",),
            rule="Random central regions (1-2 sites, 3 in depth), interactions, couplings, temperatures and biases, in charge "
                 "states from empty to full. Oracle: second-order amplitudes from reference operators "
                 "over all virtual states, spin channel by spin channel; golden-rule rates from them with the mid-point "
                 "formula or by quadrature of the regularised integral; detailed balance at equal chemical potentials; "
                 "stationary currents. Non-trivial: an inelastic transition with a finite amplitude was judged.",
            assumptions=["numba-compiled functions behave as their Python source (numba is not installed)",
                         "rates by the sampled energy integral are judged to 8% (its energy window is finite)"],
            require={"uphill": 1, "isolated_levels": 1, "amplitudes": 1, "rates": 1, "resolved": 1, "charge_only": 1, "inelastic": 1, "exact_rates": 1,
                     "detailed_balance": 1, "implementations_compared": 1, "one_above_empty": 1, "one_below_full": 1, "currents": 1})


def f(x):
    e = np.exp(-np.abs(np.minimum(np.maximum(x, -700.), 700.)))
    return np.where(x > 0, e, 1.) / (1 + e)


def G(beta, x):
    """x / (exp(beta x) - 1)."""
    y = beta * x
    if abs(y) < 1e-6:
        return (1 - y / 2 + y * y / 12) / beta
    return 0. if y > 700 else x / np.expm1(y)


def couple(ctx, n):
    r, rs = ctx.rng, ctx.np
    k = r.choice(["generic", "generic", "ones", "ends", "odd"])
    if k == "generic":
        A = rs.normal(size=(2, n))
    elif k == "ones":
        A = np.ones((2, n))
    elif k == "ends":
        A = np.zeros((2, n))
        A[0, 0], A[1, n - 1] = rs.uniform(.3, 2, 2)
    else:
        A = np.outer(rs.uniform(.5, 2, 2), [(-1.) ** i for i in range(n)])
    return A * r.choice([1., 1., .1])


def model(ctx, sizes, diag=False):
    r, rs = ctx.rng, ctx.np
    n = r.choice(sizes)
    H = ref.rand_H(rs, n, kind="diag" if diag else None, spin=r.random() < .4)
    V = ref.rand_V(rs, n, kind=r.choice(["onsite", "full", "uniform", "negative"]))
    V = V + np.eye(n) * r.choice([0., 0., 4., 10.])
    H = H + np.eye(n) * r.choice([0., 0., -2., 3., -5., -12.])
    if r.random() < .15:                                     # states that all but coincide
        H = np.array([H, H]) if H.ndim == 2 else H.copy()
        H[1] = H[0] + np.eye(n) * 10. ** rs.uniform(-6, -2)
    if n > 1 and r.random() < .3:
        V = {"U": V, "Jx": ref.rand_J(rs, n)}
    ctx.note(n=n, H=H, V=V)
    return n, H, V


class Second(object):
    """Second-order amplitudes from reference operators in the eigenbasis supplied."""

    def __init__(self, n, espace, A):
        self.n, self.A = n, A
        self.es = {tuple(map(int, q)): (np.atleast_1d(s.eigvals), s.eigvecs) for q, s in espace.items()}
        self.cache = {}

    def basis(self, q):
        return ref.sector_basis(self.n, *q) if len(q) == 2 else ref.charge_basis(self.n, q[0])

    def to(self, q, kind, spin):
        d = 1 if kind == "+" else -1
        if len(q) == 1:
            return (q[0] + d,)
        return (q[0] + d, q[1]) if spin == 0 else (q[0], q[1] + d)

    def op(self, q, kind, spin, lead):
        """sum_i A[lead,i] d^(kind)_{i,spin} from sector q, in the eigenbasis; None where it leaves the space."""
        key = (q, kind, spin)
        q2 = self.to(q, kind, spin)
        if q2 not in self.es:
            return None
        if key not in self.cache:
            v, v2 = self.es[q][1], self.es[q2][1]
            st, st2 = self.basis(q), self.basis(q2)
            self.cache[key] = np.array([v2.T.dot(ref.matrix([(1., [(kind, i + spin * self.n)])], st2, st, 2 * self.n)).dot(v)
                                        for i in range(self.n)])
        return np.tensordot(self.A[lead], self.cache[key], 1)

    def paths(self, I, F, s, t, ext, inj):
        """Numerators and poles (in the energy of the electron that ends in lead inj) of the amplitude I -> F in which an
        electron of spin s comes from lead ext and one of spin t goes to lead inj."""
        qI, qF = I[:-1], F[:-1]
        eI, eF = self.es[qI][0][I[-1]], self.es[qF][0][F[-1]]
        Y, P = [], []
        qm = self.to(qI, "+", s)
        if qm in self.es and self.to(qm, "-", t) == qF:
            Y.append(self.op(qm, "-", t, inj)[F[-1]] * self.op(qI, "+", s, ext)[:, I[-1]])
            P.append(self.es[qm][0] - eF)
        qm = self.to(qI, "-", t)
        if qm in self.es and self.to(qm, "+", s) == qF:
            Y.append(self.op(qm, "+", s, ext)[F[-1]] * self.op(qI, "-", t, inj)[:, I[-1]])
            P.append(eI - self.es[qm][0])
        if not Y:
            return np.zeros(0), np.zeros(0)
        return np.concatenate(Y), np.concatenate(P)

    def dE(self, I, F):
        return self.es[F[:-1]][0][F[-1]] - self.es[I[:-1]][0][I[-1]]

    def square(self, I, F, z, ext, inj):
        """sum over spin channels of |amplitude|^2 at the energies z, and the scale of its terms."""
        z = np.atleast_1d(z)
        tot, sc = np.zeros(z.shape), np.zeros(z.shape)
        for s in range(2):
            for t in range(2):
                Y, P = self.paths(I, F, s, t, ext, inj)
                if Y.size:
                    d = 1. / (z[:, None] - P)
                    tot = tot + (Y * d).sum(1) ** 2
                    sc = sc + (np.abs(Y * d)).sum(1) ** 2
        return tot, sc

    def approximate(self, I, F, beta, mu, ext, inj):
        d = self.dE(I, F)
        g = G(beta, d - mu[ext] + mu[inj])
        v, s = self.square(I, F, .5 * (mu[ext] + mu[inj] - d), ext, inj)
        return g * v[0], g * s[0]

    def exact(self, I, F, beta, mu, ext, inj):
        d = self.dE(I, F)
        v, tol, sc = 0., 0., 0.
        m = (mu[ext] - d, mu[inj])
        for s in range(2):
            for t in range(2):
                Y, P = self.paths(I, F, s, t, ext, inj)
                # amplitudes that vanish by symmetry are rounding errors of the order of the couplings
                unit = (np.abs(self.A[ext]).max() * np.abs(self.A[inj]).max())
                if Y.size:
                    sc += 1e-17 * unit ** 2 * (beta + 1 / 1e-4 * beta)
                keep = np.abs(Y) > 1e-13 * unit
                Y, P = Y[keep], P[keep]
                if Y.size:
                    a, b = regularised(Y, P, m, beta)
                    v, tol = v + a, tol + b
                    gap = min([abs(p - q) for i, p in enumerate(P) for q in P[:i]] or [1.])
                    sc += (np.abs(Y).sum()) ** 2 * (beta + 1 / max(gap, 1e-4 / beta))
        x = beta * (m[1] - m[0])
        nb = 1. if abs(x) < 1e-4 else min(abs(1 / np.expm1(x)), 1e4) if x < 500 else 0.
        return v, tol + 1e-11 * nb * sc

    def depth(self, I, F, beta, mu, ext, inj):
        """Distance of the closest pole from the energy window, in units of the temperature."""
        d = self.dE(I, F)
        lo, hi = sorted((mu[ext] - d, mu[inj]))
        best = np.inf
        for s in range(2):
            for t in range(2):
                Y, P = self.paths(I, F, s, t, ext, inj)
                P = P[np.abs(Y) > 1e-13]
                if P.size:
                    best = min(best, (np.maximum(lo - P, P - hi)).min())
        return best * beta


def norm(k):
    return tuple(map(int, k[0])), tuple(map(int, k[1]))


def pick(ctx, keys, m):
    keys = sorted(keys)
    return ctx.rng.sample(keys, min(m, len(keys)))


def judge_amplitudes(ctx, S, sig, keys, what):
    r, rs = ctx.rng, ctx.np
    for key in pick(ctx, keys, 10):
        F, I = norm(key)
        ext, inj = r.choice([(0, 1), (1, 0), (0, 0), (1, 1)])
        P = np.concatenate([S.paths(I, F, s, t, ext, inj)[1] for s in range(2) for t in range(2)])
        z = rs.uniform(P.min() - 3, P.max() + 3, r.choice([1, 1, 2, 3, 5]))
        z = z[np.abs(z[:, None] - P).min(1) > 1e-3]
        if z.size == 0:
            continue
        arg = z if z.size > 1 or r.random() < .5 else float(z[0])
        got = sum(np.asarray(s(arg, S.A, ext, inj)) for s in sig[key])
        want, sc = S.square(I, F, z, ext, inj)
        got = np.atleast_1d(got)
        ctx.check(got.shape == z.shape and bool(np.all(np.abs(got - want) <= 1e-9 * sc + 1e-13)),
                  what + ": transition amplitude squared over all virtual states", key=(F, I), z=z, got=got, want=want, leads=(ext, inj))
        for s in sig[key]:
            ctx.close(float(s.dE), S.dE(I, F), what + ": energy gained", atol=1e-10)
        ctx.count("amplitudes", z.size)
        if abs(S.dE(I, F)) > 1e-6 and want.max() > 1e-8:
            ctx.count("inelastic")
            ctx.nontrivial(ctx.seed)


def rate_matrices(ctx, S, ids, beta, mu):
    """Reference rates per ordered pair of leads, mid-point formula; [ext, inj, F, I]."""
    m = len(ids)
    R, sc = np.zeros((2, 2, m, m)), np.zeros((2, 2, m, m))
    for e in range(2):
        for j in range(2):
            for a, F in enumerate(ids):
                for b, I in enumerate(ids):
                    R[e, j, a, b], sc[e, j, a, b] = S.approximate(I, F, beta, mu, e, j)
    return R, sc


def resonant(S, ids, beta, mu, tol=1e-4):
    """Is a mid-point energy on a virtual state?"""
    for I in ids:
        for F in ids:
            for e in range(2):
                for j in range(2):
                    z = .5 * (mu[e] + mu[j] - S.dE(I, F))
                    for s in range(2):
                        for t in range(2):
                            Y, P = S.paths(I, F, s, t, e, j)
                            if P.size and np.abs(z - P).min() < tol:
                                return True
    return False


def judge_W(ctx, W, R, sc, what, nonneg=True):
    W, tot, s = np.asarray(W), R.sum((0, 1)), sc.sum((0, 1))
    off = ~np.eye(len(W), dtype=bool)
    big = max(s[off].max() if off.any() else 0., 1e-300)
    ctx.check(W.shape == tot.shape, what + ": one row per state", got=W.shape, want=tot.shape)
    if nonneg:
        ctx.check(bool((W[off] >= 0).all()), what + ": off-diagonal entries are nonnegative", got=W)
    ctx.check(bool(np.all(np.abs(W.sum(0)) <= 1e-11 * (np.abs(W).sum(0) + 1e-300))), what + ": columns add up to zero", sums=W.sum(0), W=W)
    ctx.check(bool(np.all(np.abs(W - tot)[off] <= 1e-8 * s[off] + 1e-20 * big)), what + ": golden-rule rates", got=W, want=tot, scale=s)
    ctx.count("rates", int(off.sum()))


def balance(ctx, W, E, beta, what, rtol=1e-7, atol=0.):
    """Detailed balance W[f,i] exp(-beta E_i) = W[i,f] exp(-beta E_f)."""
    E = np.asarray(E)
    d = beta * (E[:, None] - E[None, :])                    # E_f - E_i
    lhs, rhs = W, W.T * np.exp(-np.clip(d, -600, 600))
    up = (d >= 0) & ~np.eye(len(E), dtype=bool)             # compare in the direction of the factor below one
    sc = np.abs(W).max()
    bad = np.abs(lhs - rhs)[up] > rtol * np.maximum(np.abs(lhs), np.abs(rhs))[up] + 1e-24 * sc + atol
    ctx.check(not bad.any(), what + ": detailed balance at equal chemical potentials", W=W, E=E, beta=beta)
    ctx.count("detailed_balance")


def spaces(ctx, sizes):
    from edpyt.espace import build_espace
    if ctx.rng.random() < .15:                               # isolated levels: one ground state per orientation of the spins
        n, U = max(sizes[-1], 2), ctx.np.uniform(1, 6)
        H, V = -U * ctx.np.uniform(.1, .9) * np.eye(n), U * np.eye(n)
        ctx.note(n=n, H=H, V=V)
        ctx.count("isolated_levels")
    else:
        n, H, V = model(ctx, sizes)
    with edp.settings(hfmode=False, mu=0., z=None):
        espace, egs = build_espace(H, V)
    return n, espace, egs


def charge_space(ctx, sizes, model_=None):
    from edpyt.espace import build_empty_sector, build_espace
    own = model_ is None and ctx.rng.random() < .3
    n, H, V = model_ or model(ctx, sizes, diag=own)
    if own:
        with edp.settings(hfmode=False, mu=0., z=None):
            espace, egs = build_espace(H, V, symmetry="N")
        return n, espace
    espace = {}
    for N in range(2 * n + 1):
        s = build_empty_sector(n, N)
        s.eigvals, s.eigvecs = np.linalg.eigh(ref.hamiltonian(H, V, ref.charge_basis(n, N), n))
        espace[(N,)] = s
    return n, espace


def guard(espace):
    return edp.Frozen(**{"%s%s" % (a, "_".join(map(str, q))): getattr(s, a) for q, s in espace.items() for a in ("eigvals", "eigvecs")})


def bias(ctx, beta, centre):
    r, rs = ctx.rng, ctx.np
    v = r.choice([0., rs.uniform(-5, 5) / beta, rs.uniform(-1, 1), r.choice([-1., 1.]) * 10. ** rs.uniform(-7, -1) / beta])
    a = r.choice([0., .5, -.5])                              # symmetric or applied to one side only
    return r.choice([list, tuple, np.array])((centre + (.5 + a) * v, centre - (.5 - a) * v))


def middle(ctx, lowest, N, n):
    """A chemical potential in the middle of the blockaded region of charge N, if there is one."""
    lo = lowest[N] - lowest[N - 1] if N > 0 else lowest[N + 1] - lowest[N] - 4.
    hi = lowest[N + 1] - lowest[N] if N < 2 * n else lo + 4.
    return .5 * (lo + hi), hi - lo


def other_leads(ctx, n, espace, A, S):
    """The same transition elements serve other leads: a new array, or new values in the array used before."""
    k = ctx.rng.choice(["same", "new", "in place", "in place"])
    if k == "same":
        return A, S
    B = couple(ctx, n)
    if k == "in place" and A.flags.writeable:
        A[...] = B
        B = A
    ctx.note(A=B)
    ctx.count("other_leads")
    return B, Second(n, espace, B.copy())


@chk.family("resolved", quick=45, thorough=1500)
def resolved(ctx):
    from edpyt import cotunneling as ct
    from edpyt.rates import stationary_solution
    r, rs = ctx.rng, ctx.np
    n, espace, egs = spaces(ctx, (1, 1, 2, 2, 2) if not ctx.thorough else (1, 2, 2, 2, 2, 3))
    A, beta = couple(ctx, n), r.choice([.5, 3., 15., 60.])
    g = guard(espace)
    S = Second(n, espace, A)
    gs = [q for q, s in espace.items() if abs(s.eigvals.min() - egs) < 1e-9]
    if len({a + b for a, b in gs}) > 1:
        return
    N = sum(gs[0])
    ctx.count("one_above_empty", N == 1)
    ctx.count("one_below_full", N == 2 * n - 1)
    act = {(a + x, b + y) for a, b in gs for x, y in ((0, 0), (1, -1), (-1, 1)) if 0 <= a + x <= n and 0 <= b + y <= n}
    hop = lambda F, I: sum(abs(x - y) for x, y in zip(F[:2], I[:2])) <= 2
    st = sorted((q + (k,)) for q in act for k in range(espace[q].eigvals.size))
    want = {(F, I) for F in st for I in st if hop(F, I)}
    cut = r.choice([None, None, .5, 2., 5.])
    if cut is not None:
        en = lambda i: espace[i[:2]].eigvals[i[2]] - egs
        if min(min(abs(abs(en(F) - en(I)) - cut), abs(en(F) - cut), abs(en(I) - cut)) for F, I in want) < 1e-9:
            return
        want = {(F, I) for F, I in want if abs(en(F) - en(I)) < cut and en(F) < cut and en(I) < cut}
        sig = ct.build_transition_elements(n, egs, espace, cutoff=cut)
        st = [i for i in st if en(i) < cut]
    else:
        sig = ct.build_transition_elements(n, egs, espace)
    ctx.eq(sorted(map(norm, sig)), sorted(want), "transitions between all states of the charge reached")
    judge_amplitudes(ctx, S, sig, list(sig), "resolved")
    low = {M: min(s.eigvals.min() for q, s in espace.items() if sum(q) == M) for M in range(2 * n + 1)}
    c, width = middle(ctx, low, N, n)
    mu = bias(ctx, beta, c)
    ctx.note(A=A, beta=beta, mu=list(mu), N=N)
    keys = list(sig)
    if len(st) <= 6 and not resonant(S, st, beta, mu):
        R, sc = rate_matrices(ctx, S, st, beta, mu)
        W = ct.build_rate_matrix(sig, beta, mu, A, approx_integral=True)
        judge_W(ctx, W, R, sc, "resolved, mid-point")
        p = stationary_solution(W)
        T = []
        for e, j in ((0, 1), (1, 0)):
            M = np.asarray(ct.build_transition_matrix(sig, beta, mu, A, e, j, approx_integral=True))
            w = R[e, j] - R[j, e]
            ctx.check(bool(np.all(np.abs(M - w) <= 1e-8 * (sc[e, j] + sc[j, e]) + 1e-20 * sc.max())), "resolved: transition matrix", got=M, want=w)
            T.append(M.dot(p).sum())
        scale = (R[0, 1] + R[1, 0]).dot(p).sum() + 1e-300
        ctx.check(abs(T[0] + T[1]) <= 1e-9 * scale, "currents in both directions cancel", got=T)
        # leads exchanged together with their chemical potentials
        ex = type(mu)(mu[::-1]) if not isinstance(mu, np.ndarray) else mu[::-1]
        W2 = ct.build_rate_matrix(sig, beta, ex, A[::-1], approx_integral=True)
        ctx.close(W2, W, "exchange of the leads keeps the rates", atol=1e-9 * np.abs(W).max(), rtol=1e-9)
        M2 = np.asarray(ct.build_transition_matrix(sig, beta, ex, A[::-1], 0, 1, approx_integral=True))
        ctx.check(abs(M2.dot(p).sum() + T[0]) <= 1e-8 * scale, "exchange of the leads reverses the current", got=M2.dot(p).sum(), want=-T[0])
        m = float(mu[0])
        if not resonant(S, st, beta, (m, m)):
            W = np.asarray(ct.build_rate_matrix(sig, beta, (m, m), A, approx_integral=True))
            E = [S.es[i[:-1]][0][i[-1]] for i in st]
            balance(ctx, W, E, beta, "resolved, mid-point")
            M = np.asarray(ct.build_transition_matrix(sig, beta, (m, m), A, 0, 1, approx_integral=True))
            p = stationary_solution(W)
            ctx.check(abs(M.dot(p).sum()) <= 1e-8 * (np.abs(W).dot(p).sum() + np.abs(M).dot(p).sum()) + 1e-300, "no current at equal chemical potentials", got=M.dot(p).sum())
            ctx.count("currents")
    A, S = other_leads(ctx, n, espace, A, S)
    if len(st) <= 6 and r.random() < .5:
        b2 = r.choice([.5, 3., 15.])
        if not resonant(S, st, b2, mu):
            R, sc = rate_matrices(ctx, S, st, b2, mu)
            judge_W(ctx, ct.build_rate_matrix(sig, b2, mu, A, approx_integral=True), R, sc, "resolved, mid-point, other leads")
    # regularised integral
    for key in pick(ctx, keys, 3 if n == 1 else 2):
        F, I = norm(key)
        e, j = r.choice([(0, 1), (1, 0), (0, 0)])
        got = float(sum(float(s.integrate(A, e, j, beta, mu)) for s in sig[key]))
        w, tol = S.exact(I, F, beta, mu, e, j)
        ctx.check(abs(got - w) <= tol + 1e-7 * abs(w) + 1e-300, "resolved: rate by the closed-form integral", key=(F, I), got=got, want=w, tol=tol, leads=(e, j))
        if S.depth(I, F, beta, mu, e, j) > 25 and abs(w) > 100 * tol:
            ctx.check(got >= 0, "rates are nonnegative deep in a charge state", got=got)
        # the reverse transition at equal chemical potentials
        m = (float(mu[0]),) * 2
        a = float(sum(float(s.integrate(A, e, j, beta, m)) for s in sig[key]))
        b = float(sum(float(s.integrate(A, j, e, beta, m)) for s in sig[key[::-1]]))
        d = beta * S.dE(I, F)
        if d < 0:
            a, b, d, F, I, e, j = b, a, -d, I, F, j, e
        ta, tb = S.exact(I, F, beta, m, e, j)[1], S.exact(F, I, beta, m, j, e)[1]
        ctx.check(abs(a - b * np.exp(-d)) <= ta + tb * np.exp(-d) + 1e-7 * abs(a) + 1e-300, "resolved: detailed balance of the closed-form integral",
                  forward=a, backward=b, x=d)
        ctx.count("exact_rates")
    g.verify(ctx)
    ctx.count("resolved")


@chk.family("uphill", quick=50, thorough=600)
def uphill(ctx):
    """A level split by a small part or by hundreds of times the temperature: both directions to full relative precision."""
    from edpyt import cotnl, cotunneling as ct
    from edpyt.espace import build_espace
    r, rs = ctx.rng, ctx.np
    U, beta = rs.uniform(3, 8), 10. ** rs.uniform(0, 2.5)
    d = min(10. ** rs.uniform(-7, 2.7) / beta, .8 * U)
    e0 = -U * rs.uniform(.3, .7)
    if r.random() < .4:  # 50 to 300 temperatures, with both states well inside the charge state
        d, e0 = U * rs.uniform(.1, .6), -.5 * U
        beta = rs.uniform(50, 300) / d
    s = r.choice([-.5, .5])
    H, V = np.array([[[e0 + s * d]], [[e0 - s * d]]]), np.array([[U]])
    A = rs.uniform(.3, 2, (2, 1))
    v = r.choice([0., .1, -.1, .9]) * d
    mu = (.5 * v, -.5 * v)
    ctx.note(H=H, V=V, A=A, beta=beta, mu=mu)
    with edp.settings(hfmode=False, mu=0., z=None):
        espace, egs = build_espace(H, V)
    if r.random() < .7:
        S = Second(1, espace, A)
        sig = ct.build_transition_elements(1, egs, espace)
        st = sorted({norm(k)[0] for k in sig})
        if len(st) != 2 or resonant(S, st, beta, mu, 1e-2):
            return
        W = np.asarray(ct.build_rate_matrix(sig, beta, mu, A, approx_integral=True))
    else:
        n, espace = charge_space(ctx, (1,), (1, H, V))
        S = Second(1, espace, A)
        st = [(1, 0), (1, 1)]
        if resonant(S, st, beta, mu, 1e-2):
            return
        sig = cotnl.build_transition_elements(1, espace, 1)
        W = np.asarray(list(cotnl.build_rate_and_transition_matrices(sig, beta, mu, A, 0, 1))[0])
    R, sc = rate_matrices(ctx, S, st, beta, mu)
    R, sc = R.sum((0, 1)), sc.sum((0, 1))
    for a, b in ((0, 1), (1, 0)):
        x = beta * abs(S.dE(st[b], st[a]))
        ctx.check(abs(W[a, b] - R[a, b]) <= (1e-8 + 1e-13 * x) * sc[a, b] + 1e-300, "golden-rule rates between split levels", got=W, want=R, x=x)
        ctx.count("rates")
    ctx.count("uphill")
    ctx.nontrivial(ctx.seed)


@chk.family("full_matrices", quick=8, thorough=150)
def full_matrices(ctx):
    """Default (closed-form) rate matrices of the resolved implementation, deep in a charge state."""
    from edpyt import cotunneling as ct
    r, rs = ctx.rng, ctx.np
    n = 1 if r.random() < .6 else 2
    U = rs.uniform(3, 8)
    N = r.choice([1, 2 * n - 1])
    H = ref.rand_H(rs, n, spin=r.random() < .5, scale=.3)
    H = H - np.eye(n) * (.5 * U if n == 1 else 0. if N == 1 else U)
    V = np.eye(n) * U + (np.ones((n, n)) - np.eye(n)) * (0. if n == 1 else .6 * U)
    if n == 2:
        H = H - np.eye(n) * (.1 if N == 1 else 1.1) * U
    from edpyt.espace import build_espace
    with edp.settings(hfmode=False, mu=0., z=None):
        espace, egs = build_espace(H, V)
    gs = [sum(q) for q, s in espace.items() if abs(s.eigvals.min() - egs) < 1e-9]
    if set(gs) != {N}:
        return
    A, beta = couple(ctx, n), r.choice([20., 60.])
    S = Second(n, espace, A)
    sig = ct.build_transition_elements(n, egs, espace)
    st = sorted({norm(k)[0] for k in sig})
    low = {M: min(s.eigvals.min() for q, s in espace.items() if sum(q) == M) for M in range(2 * n + 1)}
    c, width = middle(ctx, low, N, n)
    v = r.choice([0., .05, -.3])
    mu = (c + .5 * v, c - .5 * v)
    ctx.note(n=n, H=H, V=V, A=A, beta=beta, mu=mu, N=N)
    W = np.asarray(ct.build_rate_matrix(sig, beta, mu, A)).astype(float)
    off = ~np.eye(len(st), dtype=bool)
    ctx.check(bool(np.all(np.abs(W.sum(0)) <= 1e-11 * np.abs(W).sum(0) + 1e-300)), "columns add up to zero", W=W)
    deep = min(S.depth(I, F, beta, mu, e, j) for F in st for I in st for e in range(2) for j in range(2)) > 25
    if deep:
        ctx.check(bool((W[off] >= -1e-13 * np.abs(W).max()).all()), "rates are nonnegative deep in a charge state", W=W)
    for F, I in [(F, I) for F in st for I in st if F != I][:4]:
        w = t = 0.
        for e in range(2):
            for j in range(2):
                a, b = S.exact(I, F, beta, mu, e, j)
                w, t = w + a, t + b
        got = W[st.index(F), st.index(I)]
        ctx.check(abs(got - w) <= t + 1e-7 * abs(w) + 1e-300, "rate matrix from closed-form integrals", got=got, want=w, tol=t)
        ctx.count("exact_rates")
    M = np.asarray(ct.build_transition_matrix(sig, beta, mu, A, 0, 1)).astype(float)
    for F, I in [(st[0], st[0]), (st[0], st[-1]), (st[-1], st[0])]:
        a, ta = S.exact(I, F, beta, mu, 0, 1)
        b, tb = S.exact(I, F, beta, mu, 1, 0)
        got = M[st.index(F), st.index(I)]
        ctx.check(abs(got - (a - b)) <= ta + tb + 1e-7 * (abs(a) + abs(b)) + 1e-300, "transition matrix from closed-form integrals", got=got, want=a - b)
    if v == 0. and len(st) > 1:
        E = [S.es[i[:-1]][0][i[-1]] for i in st]
        tol = max(S.exact(I, F, beta, mu, e, j)[1] for F in st[:2] for I in st[:2] for e in range(2) for j in range(2))
        balance(ctx, W, E, beta, "closed-form", rtol=1e-6, atol=10 * tol)
    ctx.nontrivial(ctx.seed)


@chk.family("charge_only", quick=45, thorough=1200)
def charge_only(ctx):
    from edpyt import cotnl
    from edpyt.rates import stationary_solution
    r, rs = ctx.rng, ctx.np
    n, espace = charge_space(ctx, (1, 1, 2, 2) if not ctx.thorough else (1, 2, 2, 2, 3))
    A, beta = couple(ctx, n), r.choice([.5, 3., 15., 60.])
    low = {q[0]: s.eigvals.min() for q, s in espace.items()}
    egs = min(low.values())
    N = r.choice([0, 1, 2 * n - 1, 2 * n, r.randrange(2 * n + 1)])
    ctx.count("one_above_empty", N == 1)
    ctx.count("one_below_full", N == 2 * n - 1)
    g = guard(espace)
    S = Second(n, espace, A)
    st = [(N, k) for k in range(espace[(N,)].eigvals.size)]
    if r.random() < .2 and sorted(low.values())[1] - egs > 1e-8:
        N = min(low, key=low.get)
        st = [(N, k) for k in range(espace[(N,)].eigvals.size)]
        sig = cotnl.build_transition_elements(n, espace, egs=egs)
    else:
        sig = cotnl.build_transition_elements(n, espace, N)
    ctx.eq(sorted(map(norm, sig)), sorted((F, I) for F in st for I in st), "transitions between all states of the charge")
    judge_amplitudes(ctx, S, sig, list(sig), "charge-only")
    c, width = middle(ctx, low, N, n)
    mu = bias(ctx, beta, c)
    ctx.note(A=A, beta=beta, mu=list(mu), N=N)
    e, j = r.choice([(0, 1), (1, 0)])
    if len(st) <= 6 and not resonant(S, st, beta, mu):
        R, sc = rate_matrices(ctx, S, st, beta, mu)
        W, T = map(np.asarray, cotnl.build_rate_and_transition_matrices(sig, beta, mu, A, e, j))
        judge_W(ctx, W, R, sc, "charge-only, mid-point") if len(st) > 1 else None
        w = R[e, j] - R[j, e]
        ctx.check(T.shape == w.shape and bool(np.all(np.abs(T - w) <= 1e-8 * (sc[e, j] + sc[j, e]) + 1e-20 * sc.max())), "charge-only: transition matrix", got=T, want=w)
        if len(st) > 1:
            p = stationary_solution(W)
            cur = T.dot(p).sum()
            scale = (R[0, 1] + R[1, 0]).dot(p).sum() + 1e-300
            ex = mu[::-1]
            W2, T2 = map(np.asarray, cotnl.build_rate_and_transition_matrices(sig, beta, ex, A[::-1], e, j))
            ctx.close(W2, W, "exchange of the leads keeps the rates", atol=1e-9 * np.abs(W).max(), rtol=1e-9)
            ctx.check(abs(T2.dot(p).sum() + cur) <= 1e-8 * scale, "exchange of the leads reverses the current", got=T2.dot(p).sum(), want=-cur)
            m = float(mu[0])
            E = espace[(N,)].eigvals
            if not resonant(S, st, beta, (m, m)):
                W, T = map(np.asarray, cotnl.build_rate_and_transition_matrices(sig, beta, (m, m), A, e, j))
                balance(ctx, W, E, beta, "charge-only, mid-point")
                p = stationary_solution(W)
                ctx.check(abs(T.dot(p).sum()) <= 1e-8 * (np.abs(W).dot(p).sum() + np.abs(T).dot(p).sum()) + 1e-300, "no current at equal chemical potentials", got=T.dot(p).sum())
                ctx.count("currents")
    A, S = other_leads(ctx, n, espace, A, S)
    if 1 < len(st) <= 6 and r.random() < .5:
        b2 = r.choice([.5, 3., 15.])
        if not resonant(S, st, b2, mu):
            R, sc = rate_matrices(ctx, S, st, b2, mu)
            W, _ = map(np.asarray, cotnl.build_rate_and_transition_matrices(sig, b2, mu, A, e, j))
            judge_W(ctx, W, R, sc, "charge-only, mid-point, other leads")
    for key in pick(ctx, list(sig), 2):
        F, I = norm(key)
        k = [len([y for gf in s.gf2 for y in gf.E]) for s in sig[key]]
        depth = S.depth(I, F, beta, mu, e, j)
        if all(x in (1, 2, 4) for x in k):
            got = float(sum(float(s.exact(A, e, j, beta, mu)) for s in sig[key]))
            w, tol = S.exact(I, F, beta, mu, e, j)
            ctx.check(abs(got - w) <= tol + 1e-7 * abs(w) + 1e-300, "charge-only: rate by the closed-form integral", key=(F, I), got=got, want=w, tol=tol)
            ctx.count("exact_rates")
        d = S.dE(I, F)
        if depth > 40 and beta * abs(mu[e] - d - mu[j]) < 40:
            got = float(sum(float(np.asarray(s.integrate(A, e, j, beta, mu)).sum()) for s in sig[key]))
            w, tol = S.exact(I, F, beta, mu, e, j)
            if abs(w) > 100 * tol:
                ctx.check(abs(got - w) <= .08 * abs(w), "charge-only: rate by the sampled integral", key=(F, I), got=got, want=w)
                ctx.count("sampled_rates")
    g.verify(ctx)
    ctx.count("charge_only")


@chk.family("sampled", quick=20, thorough=400)
def sampled(ctx):
    """The three ways of integrating agree deep in a charge state (single level)."""
    from edpyt import cotnl
    from edpyt.espace import build_empty_sector
    r, rs = ctx.rng, ctx.np
    U = rs.uniform(4, 10)
    b = r.choice([0., rs.uniform(0, .05), rs.uniform(0, .3)])
    e0 = -.5 * U + rs.uniform(-.2, .2) * U
    H = np.array([[[e0 + b]], [[e0 - b]]])
    n, espace = charge_space(ctx, (1,), (1, H, np.array([[U]])))
    A, beta = rs.uniform(.3, 2, (2, 1)), r.choice([30., 60., 120.])
    S = Second(n, espace, A)
    v = r.choice([0., rs.uniform(-.2, .2)])
    mu = (.5 * v, -.5 * v)
    ctx.note(H=H, U=U, A=A, beta=beta, mu=mu)
    sig = cotnl.build_transition_elements(1, espace, 1)
    out = {}
    for m in ("approximate", "exact", "integrate"):
        W, T = cotnl.build_rate_and_transition_matrices(sig, beta, mu, A, 0, 1, m)
        out[m] = np.asarray(W), np.asarray(T)
    off = ~np.eye(2, dtype=bool)
    W = out["exact"][0]
    ctx.check(bool((W[off] >= 0).all()), "rates are nonnegative deep in a charge state", W=W)
    for m in ("approximate", "integrate"):
        a = out[m][0]
        ctx.check(bool(np.all(np.abs(a - W)[off] <= .1 * W[off] + 1e-13 * W.max())), "%s and closed-form rates agree deep in a charge state" % m, got=a, want=W)
    for a, b_, st in (((1, 0), (1, 1), 0), ((1, 1), (1, 0), 0)):
        w = t = 0.
        for e in range(2):
            for j in range(2):
                x, y = S.exact(b_, a, beta, mu, e, j)
                w, t = w + x, t + y
        ctx.check(abs(W[a[1], b_[1]] - w) <= t + 1e-7 * abs(w), "closed-form rate", got=W[a[1], b_[1]], want=w)
        ctx.count("exact_rates")
    if v == 0.:
        for m in out:
            balance(ctx, out[m][0], espace[(1,)].eigvals, beta, m, rtol=1e-6, atol=1e-13 * W.max())
            p = None
    ctx.count("sampled_rates")
    ctx.nontrivial(ctx.seed)


@chk.family("screening", quick=20, thorough=500)
def screening(ctx):
    """Screened charge-only elements: same rates for the states kept."""
    from edpyt import cotnl
    r, rs = ctx.rng, ctx.np
    n, espace = charge_space(ctx, (1, 2, 2))
    A, beta = couple(ctx, n), r.choice([3., 15.])
    low = {q[0]: s.eigvals.min() for q, s in espace.items()}
    N = r.choice([k for k in range(1, 2 * n)])
    E = espace[(N,)].eigvals
    egs = E.min()
    cut = r.choice([.7, 3., 1e3])
    en = E - egs
    if np.abs(en - cut).min() < 1e-9:
        return
    kept = [(N, int(k)) for k in np.flatnonzero(en < cut)]
    sig = cotnl.build_transition_elements(n, espace, N, egs=egs, cutoff=cut)
    S = Second(n, espace, A)
    c, _ = middle(ctx, low, N, n)
    mu = bias(ctx, beta, c)
    ctx.note(A=A, beta=beta, mu=list(mu), N=N, cutoff=cut)
    ctx.check(all(a in kept and b in kept for a, b in map(norm, sig)), "only states below the cutoff are kept", got=sorted(map(norm, sig)), want=kept)
    have = set(map(norm, sig))
    for F in kept:
        for I in kept:
            Y = [S.paths(I, F, s, t, 0, 1)[0] for s in range(2) for t in range(2)]
            if max(np.abs(y).max() if y.size else 0 for y in Y) > 1e-8:
                ctx.check((F, I) in have, "no transition with a finite amplitude is dropped", key=(F, I))
    judge_amplitudes(ctx, S, {k: v for k, v in sig.items()}, list(sig), "screened")
    ctx.count("screened")


def distinct(E, tol):
    e = np.sort(E)
    return e.size < 2 or np.diff(e).min() > tol


@chk.family("implementations", quick=30, thorough=600)
def implementations(ctx):
    from edpyt import cotnl, cotunneling as ct
    from edpyt.espace import build_espace
    from edpyt.rates import stationary_solution
    r, rs = ctx.rng, ctx.np
    n, H, V = model(ctx, (1, 2, 2))
    if isinstance(V, dict):
        V = V["U"]
    beta, A = r.choice([1., 5., 20.]), couple(ctx, n)
    with edp.settings(hfmode=False, mu=0., z=None):
        espace, egs = build_espace(H, V)
    gs = [q for q, s in espace.items() if abs(s.eigvals.min() - egs) < 1e-9]
    if len({sum(q) for q in gs}) > 1:
        return
    N = sum(gs[0])
    sig = ct.build_transition_elements(n, egs, espace)
    ids = sorted({norm(k)[0] for k in sig})
    if {i[:2] for i in ids} != {q for q in espace if sum(q) == N}:
        return
    _, esN = charge_space(ctx, (n,), (n, H, V))
    spin = np.ndim(H) == 3
    groups = [esN[(N,)].eigvals] if spin else [espace[q].eigvals for q in espace if sum(q) == N]
    if not all(distinct(x, 1e-5) for x in groups):
        return
    low = {q[0]: s.eigvals.min() for q, s in esN.items()}
    c, width = middle(ctx, low, N, n)
    mu = bias(ctx, beta, c)
    ctx.note(A=A, beta=beta, mu=list(mu), N=N)
    S = Second(n, espace, A)
    if resonant(S, ids, beta, mu, 1e-2):
        return
    W = np.asarray(ct.build_rate_matrix(sig, beta, mu, A, approx_integral=True))
    T = np.asarray(ct.build_transition_matrix(sig, beta, mu, A, 0, 1, approx_integral=True))
    sN = cotnl.build_transition_elements(n, esN, N)
    W2, T2 = map(np.asarray, cotnl.build_rate_and_transition_matrices(sN, beta, mu, A, 0, 1))
    # the stationary state must be unique beyond rounding for the currents to be comparable
    w = np.sort(np.abs(np.linalg.eigvals(W)))
    scale = np.abs(T).max() + 1e-5 * rate_matrices(ctx, S, ids, beta, mu)[1].max() + 1e-300
    if len(w) == 1 or w[1] > 1e-6 * max(w.max(), 1e-300):
        a, b = T.dot(stationary_solution(W)).sum(), T2.dot(stationary_solution(W2)).sum()
        ctx.check(abs(a - b) <= 1e-6 * scale, "both implementations give the same current", got=b, want=a)
        ctx.count("implementations_compared")
        ctx.nontrivial(ctx.seed)


@chk.family("sectors", quick=20, thorough=200)
def sectors(ctx):
    """project_sector from every sector; sectors to be diagonalised."""
    from collections import defaultdict
    from edpyt import cotunneling as ct
    r, rs = ctx.rng, ctx.np
    n, espace, egs = spaces(ctx, (1, 1, 2))
    A = couple(ctx, n)
    S = Second(n, espace, A)
    q = r.choice(sorted(espace))
    sig = ct.project_sector(n, q[0], q[1], espace, defaultdict(list))
    want = {(F + (f,), q + (i,)) for F in espace for f in range(espace[F].eigvals.size) for i in range(espace[q].eigvals.size)
            if sum(F) == sum(q) and abs(F[0] - q[0]) <= 1}
    ctx.eq(sorted(map(norm, sig)), sorted(want), "transitions from every state of the sector")
    judge_amplitudes(ctx, S, sig, list(sig), "single sector")


@chk.family("active", quick=120, thorough=1500)
def active(ctx):
    """Sectors to be diagonalised: everything a cotunnelling process from the ground states passes through or ends in."""
    from edpyt import cotunneling as ct
    from edpyt.lookup import get_sector_index
    r = ctx.rng
    n = r.randint(1, 5)
    gs = r.sample([(a, b) for a in range(n + 1) for b in range(n + 1)], r.randint(1, 3))
    val = r.choice([7, 50, 3])
    ctx.note(n=n, gs=gs, val=val)
    neig = ct.get_active_neig(n, list(gs), val)
    need = set()
    for a, b in gs:
        for x, y in ((0, 0), (1, -1), (-1, 1)):
            if 0 <= a + x <= n and 0 <= b + y <= n:
                need.add((a + x, b + y))
                need |= {(a + x + u, b + y + w) for u, w in ((1, 0), (-1, 0), (0, 1), (0, -1))}
    need = {k for k in need if 0 <= min(k) and max(k) <= n}
    ctx.check(len(neig) == (n + 1) ** 2 and all(neig[get_sector_index(n, a, b)] == val for a, b in need), "all sectors needed are diagonalised", gs=gs, got=neig)
    charges = {sum(q) for q in gs}
    far = [k for k in range((n + 1) ** 2) if min(abs(k // (n + 1) + k % (n + 1) - c) for c in charges) > 1]
    ctx.check(not np.any(np.asarray(neig)[far]), "no sector two electrons away is diagonalised", gs=gs, got=neig)
    ctx.count("active_sectors")
    ctx.nontrivial(n, tuple(gs))


chk.main()
