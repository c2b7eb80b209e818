"""C20: sequential tunnelling: rates, conservation, detailed balance, stationary state."""
from fractions import Fraction

import numpy as np

import edp
import ref
from vlib import Check

chk = Check("C20", needs=("psparse",),
            rule="Random central regions (1-3 sites, every one-body structure, density, exchange and pair-hopping interactions, "
                 "spin-dependent levels, degenerate ones), couplings of two leads, temperatures and biases; eigenspaces from the "
                 "library (both symmetries), from the reference in charge sectors, or with random eigenvalues. Every "
                 "element of every matrix against golden-rule rates computed from reference operators; "
                 "stationary states against exact rational arithmetic and the Gibbs state. Non-trivial: more than two states coupled.",
            assumptions=["numba-compiled functions behave as their Python source (numba is not installed)",
                         "lead occupation factors below exp(-100) may be cut off in the charge-only implementation"],
            require={"rates": 1, "resolved": 1, "charge_only": 1, "gibbs": 1, "stationary": 1, "lead_exchange": 1,
                     "implementations_compared": 1, "extracted": 1, "active_sectors": 1, "full_sector": 1, "empty_sector": 1, "cutoff": 1, "degenerate_ground": 1})


def f(x):
    e = np.exp(-np.abs(np.minimum(np.maximum(x, -700.), 700.)))
    return np.where(x > 0, e, 1.) / (1 + e)


def couple(ctx, n):
    r, rs = ctx.rng, ctx.np
    k = r.choice(["generic", "ones", "ends", "proportional", "dark", "permuted", "signs"])
    if k == "generic":
        A = rs.normal(size=(2, n))
    elif k == "ones":
        A = np.ones((2, n))
    elif k == "ends":
        A = np.zeros((2, n))
        A[0, 0], A[1, n - 1] = rs.uniform(.3, 2, 2)
    elif k == "proportional":
        A = np.outer([1., rs.uniform(.2, 3)], rs.normal(size=n))
    elif k == "permuted":                                 # equally strong, to different sites
        A = np.array([rs.normal(size=n)] * 2)
        A[1] = A[1][rs.permutation(n)]
    elif k == "signs":
        A = np.array([rs.normal(size=n)] * 2) * rs.choice([-1., 1.], (2, n))
    else:
        A = rs.normal(size=(2, n)) * (rs.rand(2, n) < .6)
    return A * r.choice([1., 1., 1., .1, 1e-6, 1e-10])


def bias(ctx, beta):
    r, rs = ctx.rng, ctx.np
    m = rs.uniform(-1, 2)
    v = r.choice([0., 0., rs.uniform(-3, 3) / beta, rs.uniform(-2, 2)])
    return r.choice([list, np.array, tuple])((m + .5 * v, m - .5 * v))


def region(ctx, sizes=(1, 2, 2, 2, 3), diag=False):
    r, rs = ctx.rng, ctx.np
    n = r.choice(sizes)
    H = ref.rand_H(rs, n, kind="diag" if diag else None, spin=r.random() < .4)
    V = ref.rand_V(rs, n)
    if r.random() < .4 and n > 1:
        V = {"U": V, "Jx": ref.rand_J(rs, n)}
        if r.random() < .5:
            V["Jp"] = ref.rand_J(rs, n)
    cfg = edp.rand_settings(rs, n)
    ctx.note(n=n, H=H, V=V, cfg=cfg)
    return n, H, V, cfg


def levels(espace):
    """All (id, energy) in the order of the ids."""
    return [(tuple(map(int, q)) + (k,), e) for q in sorted(espace) for k, e in enumerate(np.atleast_1d(espace[q].eigvals))]


def elements(n, espace, basis):
    """{(F, I): (|amplitudes| list per spin as vectors over sites, energy, kind)} by reference operators."""
    out = {}
    for q, s in espace.items():
        stI = basis(q)
        for spin in range(2):
            for kind, d in (("+", 1), ("-", -1)):
                if len(q) == 2:
                    q2 = (q[0] + d, q[1]) if spin == 0 else (q[0], q[1] + d)
                else:
                    q2 = (q[0] + d,)
                if q2 not in espace:
                    continue
                s2 = espace[q2]
                stF = basis(q2)
                v = np.array([s2.eigvecs.T.dot(ref.matrix([(1., [(kind, i + spin * n)])], stF, stI, 2 * n)).dot(s.eigvecs)
                              for i in range(n)])
                E = d * (np.asarray(s2.eigvals)[:, None] - np.asarray(s.eigvals)[None, :])
                for a, b in np.ndindex(*E.shape):
                    key = (q2 + (a,), q + (b,))
                    vs, _, _ = out.setdefault(key, ([], E[a, b], d))
                    vs.append(v[:, a, b])
    return out


def golden(el, ids, beta, mu, A):
    """Rates per lead: R[lead][F, I]."""
    m = {k: i for i, k in enumerate(ids)}
    R = np.zeros((2, len(ids), len(ids)))
    D = np.zeros((len(ids), len(ids)), int)
    for (F, I), (vs, E, d) in el.items():
        if F in m and I in m:
            for l in range(2):
                R[l, m[F], m[I]] += sum(v.dot(A[l]) ** 2 for v in vs) * f(d * beta * (E - mu[l]))
            D[m[F], m[I]] = d
    return R, D


def judge_W(ctx, W, R, what, lowcut=0.):
    W = np.asarray(W)
    tot = R.sum(0)
    want = tot - np.diag(tot.sum(0))
    sc = max(np.abs(want).max(), 1e-300)
    ctx.check(W.shape == want.shape, what + ": one row per state", got=W.shape, want=want.shape)
    off = W - np.diag(np.diag(W))
    ctx.check(bool((off >= 0).all()), what + ": off-diagonal entries are nonnegative", got=W)
    ctx.check(bool(np.all(np.abs(W.sum(0)) <= 1e-12 * sc * len(W))), what + ": columns add up to zero", sums=W.sum(0))
    ctx.check(bool(np.all(np.abs(off - tot) <= 1e-10 * tot + 1e-22 * sc + lowcut * sc)), what + ": golden-rule rates", got=off, want=tot)
    ctx.close(W, want, what + ": rate matrix", atol=1e-11 * sc, rtol=1e-10)
    ctx.count("rates", int((tot > 0).sum()))


def exact_null(W):
    """Stationary distribution in rational arithmetic (W taken from its off-diagonal entries)."""
    n = len(W)
    M = [[Fraction(float(W[i, j])) if i != j else Fraction(0) for j in range(n)] for i in range(n)]
    for j in range(n):
        M[j][j] = -sum(M[i][j] for i in range(n) if i != j)
    M[0] = [Fraction(1)] * n
    b = [Fraction(1)] + [Fraction(0)] * (n - 1)
    for c in range(n):
        p = next((i for i in range(c, n) if M[i][c] != 0), None)
        if p is None:
            return None
        M[c], M[p], b[c], b[p] = M[p], M[c], b[p], b[c]
        inv = 1 / M[c][c]
        M[c] = [x * inv for x in M[c]]
        b[c] *= inv
        for i in range(n):
            if i != c and M[i][c] != 0:
                q = M[i][c]
                M[i] = [x - q * y for x, y in zip(M[i], M[c])]
                b[i] -= q * b[c]
    return [float(x) for x in b]


def judge_p(ctx, p, W, what):
    p = np.asarray(p)
    ctx.check(p.shape == (len(W),) and np.isrealobj(p), what + ": one probability per state", got=p)
    ctx.check(bool(np.all(np.isfinite(p))), what + ": finite", got=p, W=W)
    ctx.close(p.sum(), 1., what + ": normalised", atol=1e-12)
    ctx.check(bool((p >= -1e-12).all()), what + ": nonnegative", got=p, W=W)
    flow = np.abs(W).dot(np.abs(p))
    ctx.check(bool(np.all(np.abs(np.asarray(W).dot(p)) <= 1e-9 * flow.max() + 1e-300)), what + ": null vector", got=np.asarray(W).dot(p), p=p)
    ctx.count("stationary")


def connected(R, floor=0.):
    """Irreducible in both directions of every allowed transition."""
    n = len(R)
    seen, todo = {0}, [0]
    S = (R > floor) & (R.T > floor)
    while todo:
        i = todo.pop()
        for j in np.flatnonzero(S[i]):
            if j not in seen:
                seen.add(int(j))
                todo.append(int(j))
    return len(seen) == n


def gibbs(ids, E, mu, beta, resolved):
    N = np.array([sum(i[:-1]) for i in ids])
    x = -beta * (np.array(E) - mu * N)
    w = np.exp(x - x.max())
    return w / w.sum()


def resolved_space(ctx, sizes=(1, 2, 2, 2, 3)):
    from edpyt.espace import build_espace, build_empty_sector
    n, H, V, cfg = region(ctx, sizes)
    with edp.settings(**cfg):
        espace, egs = build_espace(H, V)
    if ctx.rng.random() < .15:                       # random spectrum on the same states
        for s in espace.values():
            s.eigvals = ctx.np.normal(size=s.eigvals.size)
        egs = min(s.eigvals.min() for s in espace.values())
    return n, espace, egs


def degenerate_space(ctx):
    """Ground states in several sectors, their energies equal up to rounding."""
    from edpyt.espace import build_espace
    r, rs = ctx.rng, ctx.np
    n = r.choice([1, 2, 2])
    H, V = ref.rand_H(rs, n, kind=r.choice([None, "dense"]), spin=False), rs.uniform(.5, 3) * (np.eye(n) + .2 * np.ones((n, n)))
    if H.ndim == 3:
        H = H[0]
    with edp.settings():
        espace, _ = build_espace(H, V)
        low = {}
        for q, s in espace.items():
            low[sum(q)] = min(low.get(sum(q), np.inf), s.eigvals.min())
        gaps = {N: (low[N] - low[N - 1], low[N + 1] - low[N]) for N in range(1, 2 * n, 2)}
        N = r.choice(sorted(gaps))
        H = H - rs.uniform(.3, .7) * (gaps[N][1] - gaps[N][0]) * np.eye(n) - gaps[N][0] * np.eye(n)
        espace, egs = build_espace(H, V)
    for s in espace.values():
        s.eigvals = np.asarray(s.eigvals) + 10. ** rs.uniform(-16, -11) * rs.uniform(0, 1)
    egs = min(s.eigvals.min() for s in espace.values())
    k = sum(abs(s.eigvals.min() - egs) < 1e-9 for s in espace.values())
    ctx.note(n=n, H=H, V=V)
    ctx.count("degenerate_ground", k > 1)
    return n, espace, egs


def guard(espace):
    return edp.Frozen(**{"%s%s" % (a, "_".join(map(str, q))): getattr(s, a) for q, s in espace.items() for a in ("eigvals", "eigvecs")})


@chk.family("resolved", quick=100, thorough=1200)
def resolved(ctx):
    from edpyt import sqtunneling as sq
    from edpyt.rates import stationary_solution
    r, rs = ctx.rng, ctx.np
    several = r.random() < .2
    n, espace, egs = degenerate_space(ctx) if several else resolved_space(ctx, (1, 1, 2, 2, 2, 2) if not ctx.thorough else (1, 2, 2, 2, 3))
    beta = r.choice([.3, 2., 10., 50., 1000.])
    mu, A = bias(ctx, beta), couple(ctx, n)
    ctx.note(beta=beta, mu=list(mu), A=A)
    g = guard(espace)
    basis = lambda q: ref.sector_basis(n, *q)
    el = elements(n, espace, basis)
    mode = r.choice(["ground", "ground", "cutoff"] if several else ["all", "all", "ground", "cutoff"])
    if mode == "all":
        gfd = {}
        for q in r.sample(sorted(espace), len(espace)):
            sq.project_sector(n, q[0], q[1], espace, gfd)
        states = [i for i, _ in levels(espace)]
        keys = set(el)
    else:
        gs = [q for q, s in espace.items() if abs(s.eigvals.min() - egs) < 1e-9]
        act = set(gs)
        for a, b in gs:
            act |= {(a + x, b + y) for x, y in ((1, 0), (-1, 0), (0, 1), (0, -1)) if 0 <= a + x <= n and 0 <= b + y <= n}
        keys = {k for k in el if k[0][:2] in act and k[1][:2] in act}
        if mode == "ground":
            gfd = sq.build_transition_elements(n, egs, espace)
        else:
            cut = r.choice([.5, 1., 3.])
            en = dict(levels(espace))
            edge = lambda k: min(abs(abs(el[k][1]) - cut), abs(en[k[0]] - egs - cut), abs(en[k[1]] - egs - cut))
            if min([edge(k) for k in keys] or [1.]) < 1e-9:
                return
            gfd = sq.build_transition_elements(n, egs, espace, cutoff=cut)
            keys = {k for k in keys if abs(el[k][1]) < cut and abs(en[k[0]] - egs) < cut and abs(en[k[1]] - egs) < cut}
            ctx.count("cutoff")
        states = sorted({k[0] for k in keys})
    norm = lambda k: (tuple(map(int, k[0])), tuple(map(int, k[1])))
    ctx.eq(sorted(map(norm, gfd)), sorted(keys), "transitions between all pairs of states one electron apart")
    g.verify(ctx)
    if not keys:
        return
    for k in r.sample(sorted(gfd), min(6, len(gfd))):
        vs, E, d = el[norm(k)]
        for l in range(2):
            want = sum(v.dot(A[l]) ** 2 for v in vs) * f(d * beta * (E - mu[l]))
            ctx.check(abs(float(gfd[k](A[l], beta, mu[l])) - want) <= 1e-9 * want + 1e-25, "single rate", key=norm(k), got=gfd[k](A[l], beta, mu[l]), want=want)
    R, D = golden({k: el[k] for k in keys}, states, beta, mu, A)
    W = sq.build_rate_matrix(gfd, beta, mu, A)
    judge_W(ctx, W, R, "resolved")
    p = stationary_solution(W)
    judge_p(ctx, p, W, "resolved")
    I = []
    for l in range(2):
        T = np.asarray(sq.build_transition_matrix(gfd, beta, mu[l], A[l]))
        want = D * R[l]
        ctx.close(T, want, "transition matrix: electrons entering minus leaving", atol=1e-11 * max(np.abs(want).max(), 1e-300), rtol=1e-10)
        I.append(T.dot(p).sum())
    scale = max((R[l] * p).sum() for l in range(2)) + 1e-300
    ctx.check(abs(I[0] + I[1]) <= 1e-9 * scale, "stationary currents of both leads cancel", got=I)
    ctx.check(I[0] * (mu[0] - mu[1]) >= -1e-9 * scale * abs(mu[0] - mu[1]), "current flows from the higher chemical potential", got=I, mu=list(mu))
    kept, W = edp.Kept(), np.array(W)
    kept.add(sq.build_rate_matrix(gfd, beta, mu, A), sq.build_transition_matrix(gfd, beta, mu[0], A[0]))
    A2, mu2 = couple(ctx, n), bias(ctx, beta)
    A1 = np.array(A)
    if r.random() < .5:                              # new values in the arrays used before
        A[...] = A2
        A2 = A
    b2 = r.choice([beta, beta, .7, 5.])
    R2, _ = golden({k: el[k] for k in keys}, states, b2, mu2, A2)
    judge_W(ctx, sq.build_rate_matrix(gfd, b2, mu2, A2), R2, "resolved, other leads")
    kept.verify(ctx)
    ctx.close(np.asarray(sq.build_rate_matrix(gfd, beta, mu, A1)), W, "the first leads again", atol=1e-13 * np.abs(W).max(), rtol=1e-10)
    g.verify(ctx)
    ctx.count("resolved")
    if len(states) > 2:
        ctx.nontrivial(ctx.seed)


@chk.family("equilibrium", quick=70, thorough=800)
def equilibrium(ctx):
    from edpyt import sqtunneling as sq
    from edpyt.rates import stationary_solution
    r, rs = ctx.rng, ctx.np
    n, espace, egs = resolved_space(ctx, (1, 1, 2, 2))
    beta = r.choice([.3, 2., 10., 50., 300., 1000.])
    A = couple(ctx, n)
    m = rs.uniform(-1, 2)
    ctx.note(beta=beta, mu=m, A=A)
    gfd = {}
    for q in espace:
        sq.project_sector(n, q[0], q[1], espace, gfd)
    ids, E = zip(*levels(espace))
    W = sq.build_rate_matrix(gfd, beta, (m, m), A)
    el = elements(n, espace, lambda q: ref.sector_basis(n, *q))
    R, D = golden(el, ids, beta, (m, m), A)
    tot = R.sum(0)
    P = gibbs(ids, E, m, beta, True)
    # detailed balance, rate by rate
    lhs, rhs = W * P, (W * P).T
    off = ~np.eye(len(ids), dtype=bool)
    ctx.check(bool(np.all(np.abs(lhs - rhs)[off] <= 1e-8 * np.maximum(lhs, rhs)[off] + 1e-250)), "detailed balance at equal chemical potentials",
              worst=float(np.abs(lhs - rhs)[off].max()))
    p = stationary_solution(W)
    judge_p(ctx, p, W, "equilibrium")
    for l in range(2):
        T = sq.build_transition_matrix(gfd, beta, m, A[l])
        ctx.check(abs(np.asarray(T).dot(p).sum()) <= 1e-9 * (R[l] * p).sum() + 1e-300, "no current at equal chemical potentials", lead=l, got=np.asarray(T).dot(p).sum())
    # couplings that are zero up to rounding make the null vector a matter of rounding
    amp = np.array([[0.] * len(ids)] * len(ids))
    for (F, I), (vs, _, _) in el.items():
        amp[ids.index(F), ids.index(I)] = max(abs(v.dot(A[l])) for v in vs for l in range(2))
    big = amp > 1e-5 * amp.max() if amp.max() else amp > 0
    if connected((tot > 0) & big, 0) and tot[big].min() > 1e-290:
        ctx.close(p, P, "stationary state is the Gibbs state", atol=1e-8)
        ctx.count("gibbs")
        ctx.nontrivial(ctx.seed)


def charge_space(ctx, sizes=(1, 2, 2, 2, 3)):
    from edpyt.espace import build_espace, build_empty_sector
    r = ctx.rng
    own = r.random() < .5
    n, H, V, cfg = region(ctx, sizes, diag=own)
    if own:
        with edp.settings(**cfg):
            espace, egs = build_espace(H, V, symmetry="N")
    else:
        espace = {}
        for N in range(2 * n + 1):
            s = build_empty_sector(n, N)
            s.eigvals, s.eigvecs = np.linalg.eigh(ref.hamiltonian(H, V, ref.charge_basis(n, N), n, **cfg))
            espace[(N,)] = s
        egs = min(s.eigvals.min() for s in espace.values())
    return n, espace, egs


def pair_of_leads(ctx):
    return ctx.rng.choice([(0, 1), (1, 0)])


@chk.family("charge_only", quick=80, thorough=800)
def charge_only(ctx):
    from edpyt import sqtnl
    from edpyt.rates import stationary_solution
    r, rs = ctx.rng, ctx.np
    n, espace, egs = charge_space(ctx, (1, 1, 2, 2) if not ctx.thorough else (1, 2, 2, 2, 3))
    beta = r.choice([.3, 2., 10., 50.])
    mu, A = bias(ctx, beta), couple(ctx, n)
    ctx.note(beta=beta, mu=list(mu), A=A)
    g = guard(espace)
    el = elements(n, espace, lambda q: ref.charge_basis(n, q[0]))
    mode = r.choice(["all", "one", "one", "ground"])
    if mode == "all":
        gfd = {}
        for N in r.sample(range(2 * n + 1), 2 * n + 1):
            gfd.update(sqtnl.build_transition_elements(n, espace, N))
        centre = None
    else:
        if mode == "ground":
            low = sorted(s.eigvals.min() for s in espace.values())
            if low[1] - low[0] < 1e-8:
                return
            N = min(espace, key=lambda q: espace[q].eigvals.min())[0]
            gfd = sqtnl.build_transition_elements(n, espace, egs=egs)
        else:
            N = r.choice([0, 2 * n, r.randrange(2 * n + 1), r.randrange(2 * n + 1)])
            gfd = sqtnl.build_transition_elements(n, espace, N)
        el = {k: v for k, v in el.items() if k[0][0] == N or k[1][0] == N}
        ctx.count("full_sector", N in (2 * n - 1, 2 * n))
        ctx.count("empty_sector", N in (0, 1))
    norm = lambda k: (tuple(map(int, k[0])), tuple(map(int, k[1])))
    ctx.eq(sorted(map(norm, gfd)), sorted(el), "transitions to all charge states one electron away")
    ids = sorted({k[0] for k in el})
    R, D = golden(el, ids, beta, mu, A)
    extract, inject = pair_of_leads(ctx)
    W, T = sqtnl.build_rate_and_transition_matrices(gfd, beta, mu, A, extract, inject)
    W, T = np.asarray(W), np.asarray(T)
    judge_W(ctx, W, R, "charge-only", lowcut=1e-40)
    want = -D * R[inject]
    ctx.close(T, want, "charge-only transition matrix: electrons leaving to minus entering from the lead", atol=1e-11 * max(np.abs(want).max(), 1e-300), rtol=1e-10)
    Wd, Td = sqtnl.build_rate_and_transition_matrices(gfd, beta, mu, A, extract, inject, build_matrices=False)
    for d, M in ((Wd, W), (Td, T)):
        for (F, I), v in d.items():
            ctx.check(abs(v - M[ids.index(norm((F, I))[0]), ids.index(norm((F, I))[1])]) <= 1e-12 * np.abs(M).max() + 1e-300, "dictionary and matrix form agree")
    p = stationary_solution(W)
    judge_p(ctx, p, W, "charge-only")
    scale = (R * p).sum() + 1e-300
    cur = T.dot(p).sum()
    ctx.check(cur * (mu[extract] - mu[inject]) >= -1e-9 * scale * abs(mu[0] - mu[1]), "electrons flow from the higher chemical potential", got=cur)
    g.verify(ctx)
    ctx.count("charge_only")
    # the same transition elements with other leads
    kept = edp.Kept()
    kept.add(*sqtnl.build_rate_and_transition_matrices(gfd, beta, mu, A, extract, inject))
    A2, mu2 = couple(ctx, n), bias(ctx, beta)
    if r.random() < .5:                              # new values in the arrays used before
        A[...] = A2
        A2 = A
    R2, _ = golden(el, ids, beta, mu2, A2)
    W2, T2 = map(np.asarray, sqtnl.build_rate_and_transition_matrices(gfd, beta, mu2, A2, extract, inject))
    kept.verify(ctx)
    judge_W(ctx, W2, R2, "charge-only, other leads", lowcut=1e-40)
    want2 = -D * R2[inject]
    ctx.close(T2, want2, "transition matrix, other leads", atol=1e-11 * max(np.abs(want2).max(), 1e-300), rtol=1e-10)
    # at equal chemical potentials
    m = float(mu[0])
    W, T = map(np.asarray, sqtnl.build_rate_and_transition_matrices(gfd, beta, (m, m), A, extract, inject))
    en = dict(levels(espace))
    P = gibbs(ids, [en[i] for i in ids], m, beta, False)
    lhs = W * P
    off = ~np.eye(len(ids), dtype=bool)
    sc = np.abs(W).max()
    ctx.check(bool(np.all(np.abs(lhs - lhs.T)[off] <= 1e-8 * np.maximum(lhs, lhs.T)[off] + 1e-38 * sc)), "detailed balance at equal chemical potentials",
              worst=float(np.abs(lhs - lhs.T)[off].max()))
    p = stationary_solution(W)
    judge_p(ctx, p, W, "charge-only equilibrium")
    ctx.check(abs(T.dot(p).sum()) <= 1e-9 * np.abs(T).dot(p).sum() + 1e-35 * sc + 1e-300, "no current at equal chemical potentials", got=T.dot(p).sum())
    if len(ids) > 2:
        ctx.nontrivial(ctx.seed)


def distinct(E, tol):
    e = np.sort(E)
    return e.size < 2 or np.diff(e).min() > tol


@chk.family("implementations", quick=50, thorough=500)
def implementations(ctx):
    """Same model through both implementations; exchange of the leads."""
    from edpyt import sqtnl, sqtunneling as sq
    from edpyt.espace import build_espace, build_empty_sector
    from edpyt.rates import stationary_solution
    r, rs = ctx.rng, ctx.np
    n = r.choice([1, 2, 2])
    spin = r.random() < .5
    H = ref.rand_H(rs, n, kind=r.choice(["dense", "chain", "star"]), spin=spin)
    V = ref.rand_V(rs, n, kind=r.choice(["onsite", "full", "negative"]))
    beta = r.choice([.5, 3., 15.])
    A = couple(ctx, n)
    mu = list(bias(ctx, beta))
    ctx.note(n=n, H=H, V=V, beta=beta, mu=mu, A=A)
    with edp.settings(hfmode=False, mu=0., z=None):
        espace, egs = build_espace(H, V)
    esN = {}
    for N in range(2 * n + 1):
        s = build_empty_sector(n, N)
        s.eigvals, s.eigvecs = np.linalg.eigh(ref.hamiltonian(H, V, ref.charge_basis(n, N), n))
        esN[(N,)] = s
    if spin:
        ok = all(distinct(s.eigvals, 1e-5) for s in esN.values())
    else:
        ok = all(distinct(s.eigvals, 1e-5) for s in espace.values())

    def one(mu, A):
        gfd = {}
        for q in espace:
            sq.project_sector(n, q[0], q[1], espace, gfd)
        W = sq.build_rate_matrix(gfd, beta, mu, A)
        p = stationary_solution(W)
        return p, [np.asarray(sq.build_transition_matrix(gfd, beta, mu[l], A[l])).dot(p).sum() for l in range(2)], W

    def two(mu, A, l):
        gfd = {}
        for N in range(2 * n + 1):
            gfd.update(sqtnl.build_transition_elements(n, esN, N))
        W, T = map(np.asarray, sqtnl.build_rate_and_transition_matrices(gfd, beta, mu, A, l, 1 - l))
        p = stationary_solution(W)
        return p, T.dot(p).sum(), W
    p, I, W = one(mu, A)
    scale = np.abs(W).max() + 1e-300
    q, J, _ = one(mu[::-1], A[::-1])
    # stationary states are unique where all couplings are sizeable
    el = elements(n, espace, lambda q: ref.sector_basis(n, *q))
    amp = np.zeros((len(p), len(p)))
    ids = [i for i, _ in levels(espace)]
    for (F, K), (vs, _, _) in el.items():
        amp[ids.index(F), ids.index(K)] = max(abs(v.dot(A[l])) for v in vs for l in range(2))
    big = amp > 1e-5 * max(amp.max(), 1e-300)
    unique = connected(big * (W > 0), 0)
    if unique:
        ctx.close(q, p, "exchange of the leads keeps the stationary state", atol=1e-8)
        ctx.check(abs(J[0] - I[1]) <= 1e-8 * scale and abs(J[1] - I[0]) <= 1e-8 * scale, "exchange of the leads reverses the current", got=J, want=I[::-1])
        ctx.count("lead_exchange")
    if unique and ok:
        for l in range(2):
            pN, JN, _ = two(mu, A, l)
            ctx.check(abs(JN - I[l]) <= 1e-7 * scale, "both implementations give the same current", got=JN, want=I[l])
            idN = [i for i, _ in levels(esN)]
            for N in range(2 * n + 1):
                a = sum(p[k] for k, i in enumerate(ids) if i[0] + i[1] == N)
                b = sum(pN[k] for k, i in enumerate(idN) if i[0] == N)
                ctx.close(b, a, "both implementations give the same charge distribution", atol=1e-7)
        pN, JX, _ = two(mu[::-1], A[::-1], 1)
        ctx.check(abs(JX - I[0]) <= 1e-7 * scale, "exchange of the leads in the charge-only implementation", got=JX, want=I[0])
        ctx.count("implementations_compared")
        ctx.nontrivial(ctx.seed)


@chk.family("extracted", quick=24, thorough=300)
def extracted(ctx):
    """Sequential rates taken out of the (unscreened) cotunneling amplitudes of a charge sector."""
    from edpyt import cotnl, sqtnl
    r, rs = ctx.rng, ctx.np
    n, espace, egs = charge_space(ctx, (1, 1, 2, 2))
    beta = r.choice([.3, 2., 10., 50.])
    mu, A = bias(ctx, beta), couple(ctx, n)
    N = r.choice([0, 2 * n, r.randrange(2 * n + 1)])
    ctx.note(beta=beta, mu=list(mu), A=A, N=N)
    g = guard(espace)
    el = elements(n, espace, lambda q: ref.charge_basis(n, q[0]))
    el = {k: v for k, v in el.items() if k[0][0] == N or k[1][0] == N}
    gfd = sqtnl.extract_sequential_from_cotunneling(cotnl.build_transition_elements(n, espace, N))
    norm = lambda k: (tuple(map(int, k[0])), tuple(map(int, k[1])))
    ctx.eq(sorted(map(norm, gfd)), sorted(el), "transitions to all charge states one electron away")
    ids = sorted({k[0] for k in el})
    R, D = golden(el, ids, beta, mu, A)
    W, T = map(np.asarray, sqtnl.build_rate_and_transition_matrices(gfd, beta, mu, A, 0, 1))
    judge_W(ctx, W, R, "extracted from cotunneling", lowcut=1e-40)
    want = -D * R[1]
    ctx.close(T, want, "transition matrix, extracted from cotunneling", atol=1e-11 * max(np.abs(want).max(), 1e-300), rtol=1e-10)
    g.verify(ctx)
    ctx.count("extracted")
    if len(ids) > 2:
        ctx.nontrivial(ctx.seed)


@chk.family("active", quick=30, thorough=300)
def active(ctx):
    """Only the sectors reached from the ground states need to be solved."""
    from edpyt import sqtunneling as sq
    from edpyt.espace import build_espace
    from edpyt.lookup import get_sector_index
    r = ctx.rng
    n = r.choice([1, 2, 2, 3, 4])
    gs = r.sample([(a, b) for a in range(n + 1) for b in range(n + 1)], r.randint(1, 3))
    if r.random() < .3:
        gs = [r.choice([(n, r.randint(0, n)), (r.randint(0, n), n), (0, 0), (n, n)])]
    val = r.choice([1, 2, 7, 50])
    ctx.note(n=n, gs=gs, val=val)
    neig = np.asarray(sq.get_active_neig(n, list(gs), val) if val != 2 else sq.get_active_neig(n, list(gs)))
    want = np.zeros((n + 1) ** 2, int)
    for a, b in gs:
        for x, y in ((0, 0), (1, 0), (-1, 0), (0, 1), (0, -1)):
            if 0 <= a + x <= n and 0 <= b + y <= n:
                want[int(get_sector_index(n, a + x, b + y))] = val
    ctx.same(neig, want, "states requested in the sectors next to the ground states, nowhere else")
    ctx.count("active_sectors", int((want > 0).sum()))
    if n <= 2 and r.random() < .5:
        H, V = ref.rand_H(ctx.np, n, "dense"), ref.rand_V(ctx.np, n)
        full, egs = build_espace(H, V)
        ground = [q for q, s in full.items() if abs(s.eigvals.min() - egs) < 1e-9]
        part, egs2 = build_espace(H, V, sq.get_active_neig(n, list(ground), 50))
        a, b = sq.build_transition_elements(n, egs, full), sq.build_transition_elements(n, egs2, part)
        ctx.eq(sorted(a), sorted(b), "transitions from the sectors solved")
        for k in a:
            ctx.close(b[k].E, a[k].E, "energy of a transition from the sectors solved", atol=1e-9)
    ctx.nontrivial(ctx.seed)


@chk.family("null_vector", quick=150, thorough=6000)
def null_vector(ctx):
    """Stationary states of arbitrary rate matrices, over many orders of magnitude."""
    from edpyt.rates import stationary_solution
    r, rs = ctx.rng, ctx.np
    n = r.randint(1, 7)
    span = r.choice([0, 1, 10, 40, 100])
    R = 10 ** rs.uniform(-span, span, (n, n)) * 10. ** r.choice([0, 0, -20, -150, 100])
    dens = r.choice([1., 1., .6, .35])
    R *= rs.rand(n, n) < dens
    if r.random() < .4:                                   # reversible
        E = rs.uniform(0, r.choice([1., 20., 200.]), n)
        S = rs.uniform(.1, 1, (n, n)) * (rs.rand(n, n) < max(dens, .6))
        S = np.triu(S, 1) + np.triu(S, 1).T
        R = S * np.exp(-np.maximum(E[:, None] - E[None, :], 0.))
    if r.random() < .1:
        R *= 0
    np.fill_diagonal(R, 0)
    W = R - np.diag(R.sum(0))
    if r.random() < .3:
        W = np.asfortranarray(W)
    ctx.note(W=W)
    g = edp.Frozen(W=W)
    p = stationary_solution(W)
    g.verify(ctx)
    judge_p(ctx, p, W, "arbitrary rates")
    x = exact_null(W) if n > 1 else [1.]
    if x is not None:
        x = np.array(x)
        ctx.check(bool(np.all(np.abs(p - x) <= 1e-9)), "stationary state against exact arithmetic", got=p, want=x)
        ctx.count("exact_null_vectors")
        if n > 2:
            ctx.nontrivial(ctx.seed)


chk.main()
