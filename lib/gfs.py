"""Shared oracles for the Green's function checks."""
import numpy as np

import edp
import ref


def model(ctx, sizes, spin=.4, kinds=None, exchange=.3, betas=(.1, 1., 5., 20., 100., 1e3, 1e4)):
    r, rs = ctx.rng, ctx.np
    n = r.choice(sizes)
    H = ref.rand_H(rs, n, kind=None if kinds is None else r.choice(kinds), spin=r.random() < spin)
    V = ref.rand_V(rs, n)
    ex = r.random()
    if ex < exchange and n > 1:
        V = {"U": V, "Jx": ref.rand_J(rs, n)}
        if ex < .6 * exchange:
            V["Jp"] = ref.rand_J(rs, n)
    cfg = edp.rand_settings(rs, n)
    beta = r.choice(betas)
    ctx.note(n=n, H=H, V=V, cfg=cfg, beta=beta)
    return n, H, V, cfg, beta


def freqs(ctx, P, m=8, etas=(1e-3, 1e-2, .1, 1., 10.)):
    """Complex frequencies: both half planes, near and far from the real axis, on and between poles."""
    r, rs = ctx.rng, ctx.np
    lo, hi = (P.min() - 1, P.max() + 1) if P.size else (-1., 1.)
    e, eta = [], []
    for k in range(m):
        x = rs.uniform(lo, hi)
        if P.size and k % 3 == 0:
            x = P[rs.randint(P.size)]
        e.append(x)
        eta.append(r.choice([1., -1.]) * r.choice(etas))
    e, eta = np.array(e), np.array(eta)
    k = r.random()
    if k < .12:                                          # one value, or nearly one value, for all of them
        eta = np.full(m, eta[0])
    elif k < .27:
        eta = eta[0] * (1 + 10. ** rs.uniform(-6, -1.5) * rs.uniform(0, 1, m))
    elif k < .33:                                        # neighbouring points
        e = e[0] + 10. ** rs.uniform(-6, -1.5) * rs.uniform(-1, 1, m)
    return e, eta


def limit(eta, beta=0.):
    # level errors of 1e-12 shift poles and, multiplied by beta, the weights
    a = np.abs(eta)
    return 1e-9 + (1e-10 + 1e-12 * beta) / a + 1e-11 / a ** 2


def near(ctx, got, want, eta, what, beta=0., mech="", extra=0.):
    got = np.asarray(got)
    ctx.check(got.shape == np.shape(want), what + ": one value per frequency", mech, got=got.shape, want=np.shape(want))
    err = np.abs(got - want)
    lim = limit(eta, beta) + extra
    ctx.check(bool(np.all(err <= lim)), what, mech, worst=float(np.nanmax(err / lim)), got=got, want=want, eta=eta)


class Retained(object):
    """Lehmann sums over exactly the states held by a library eigenspace.

    The retained vectors are the library's; the operators and the spectra of the arrival
    sectors come from the reference model."""

    def __init__(self, H, V, n, espace, beta, egs, cfg):
        self.n, self.beta = n, beta
        self.states = {q: (np.array(s.eigvals), np.array(s.eigvecs)) for q, s in espace.items()}
        self.egs = min(e.min() for e, _ in self.states.values())
        self.args = (H, V, cfg)
        self.cache = {}
        self.Z = sum(np.exp(-beta * (e - self.egs)).sum() for e, _ in self.states.values())

    def arrival(self, q):
        if q not in self.cache:
            H, V, cfg = self.args
            st = ref.sector_basis(self.n, *q)
            e, v = np.linalg.eigh(ref.hamiltonian(H, V, st, self.n, **cfg))
            self.cache[q] = (st, e, v)
        return self.cache[q]

    def poles(self, i, j, ispin, part="both"):
        n, P, R = self.n, [], []
        for q, (e, v) in self.states.items():
            st = ref.sector_basis(n, *q)
            w = np.exp(-self.beta * (e - self.egs)) / self.Z
            for kind in {"both": "+-", "e": "+", "h": "-"}[part]:
                d = 1 if kind == "+" else -1
                q2 = (q[0] + d, q[1]) if ispin == 0 else (q[0], q[1] + d)
                if min(q2) < 0 or max(q2) > n:
                    continue
                st2, e2, v2 = self.arrival(q2)
                mi = v2.T.dot(ref.matrix([(1., [(kind, i + ispin * n)])], st2, st, 2 * n)).dot(v)
                mj = mi if i == j else v2.T.dot(ref.matrix([(1., [(kind, j + ispin * n)])], st2, st, 2 * n)).dot(v)
                P.append((d * (e2[:, None] - e[None, :])).ravel())
                R.append((mi * mj * w[None, :]).ravel())
        if not P:
            return np.zeros(0), np.zeros(0)
        return np.concatenate(P), np.concatenate(R)

    def slack(self, ops, ispin, z, steps=(20, 24, 30, 40, 60)):
        """Error an exact-arithmetic Lanczos recursion of at least 20 steps commits on sum_l w_l <l|A+ (z-..)^-1 A|l>
        with A the sum of the operators of the sites `ops`; per frequency, worst over the step counts.
        Zero wherever the Krylov space is exhausted within 20 steps."""
        n, tot, long = self.n, np.zeros(np.shape(z)), False
        for q, (e, v) in self.states.items():
            st = ref.sector_basis(n, *q)
            for d in (1, -1):
                q2 = (q[0] + d, q[1]) if ispin == 0 else (q[0], q[1] + d)
                if min(q2) < 0 or max(q2) > n:
                    continue
                st2, e2, v2 = self.arrival(q2)
                if e2.size <= steps[0]:
                    continue
                A = sum(ref.matrix([(1., [("+" if d > 0 else "-", i + ispin * n)])], st2, st, 2 * n) for i in ops)
                C = v2.T.dot(A.dot(v))
                for l in range(e.size):
                    w = np.exp(-self.beta * (e[l] - self.egs)) / self.Z
                    nrm = np.linalg.norm(C[:, l])
                    if nrm < 1e-10 or w < 1e-12:
                        continue
                    a, b = lanczos(e2, C[:, l], steps[-1])
                    ex = (C[:, l] ** 2 / (z[:, None] - d * (e2 - e[l]))).sum(1)
                    worst = np.zeros(np.shape(z))
                    for m in steps:
                        if m < a.size:
                            t, u = np.linalg.eigh(np.diag(a[:m]) + np.diag(b[:m - 1], 1) + np.diag(b[:m - 1], -1))
                            g = (nrm ** 2 * u[0] ** 2 / (z[:, None] - d * (t - e[l]))).sum(1)
                            worst = np.maximum(worst, np.abs(g - ex))
                    tot += w * worst
                    long = True
        # recursions of 20 and more steps in floating point lose orthogonality (1e-8 seen in 2000 histories)
        return 3. * tot + (1e-7 * (1 + 1 / np.abs(z.imag)) if long else 0.)


def lanczos(d, c, m):
    """Reference Lanczos recursion (full reorthogonalisation) for the diagonal operator d."""
    Q, a, b = [c / np.linalg.norm(c)], [], []
    for k in range(min(m + 1, d.size)):
        w = d * Q[-1]
        a.append(Q[-1].dot(w))
        M = np.array(Q)
        w = w - M.T.dot(M.dot(w))
        w = w - M.T.dot(M.dot(w))
        x = np.linalg.norm(w)
        if x < 1e-10 * max(1., np.abs(d).max()):
            break
        b.append(x)
        Q.append(w / x)
    return np.array(a), np.array(b)


def truncate(ctx, espace, egs, beta, n, budget=None):
    """Random truncation of an eigenspace, as the public interface or a user would do it. Returns a label.

    budget limits the number of retained states (Lanczos builds cost ~30 ms per state)."""
    from edpyt.espace import screen_espace
    r = ctx.rng
    k = r.choice(["full", "full", "screen", "drop", "few"])
    if k == "screen":
        screen_espace(espace, egs, r.choice([beta, 1., 5.]), r.choice([1e-9, 1e-2, .1]))
    elif k == "drop":
        q = [x for x in espace if espace[x].eigvals.min() > egs + 1e-9]
        for x in r.sample(q, r.randrange(len(q) + 1)):
            espace.pop(x)
    elif k == "few":
        for s in espace.values():
            m = r.randint(1, s.eigvals.size)
            s.eigvals, s.eigvecs = s.eigvals[:m], s.eigvecs[:, :m]
    if budget is not None and sum(s.eigvals.size for s in espace.values()) > budget:
        k += "+budget"
        order = sorted(espace, key=lambda q: espace[q].eigvals.min())
        order = order[:1] + r.sample(order[1:], len(order) - 1)
        left = budget
        for q in order:
            s = espace[q]
            m = min(s.eigvals.size, r.randint(1, 4), left)
            if m == 0:
                espace.pop(q)
            else:
                s.eigvals, s.eigvecs = s.eigvals[:m], s.eigvecs[:, :m]
                left -= m
    return k


def change(ctx, H, V, cfg, n):
    """Change one ingredient of the model, in the caller's own arrays. Returns its name."""
    r, rs = ctx.rng, ctx.np
    what = r.choice(["H", "H", "V", "V", "mu", "hfmode", "z", "nothing"])
    if what == "H":
        i, j = r.randrange(n), r.randrange(n)
        d = rs.normal()
        h = H if H.ndim == 2 else H[r.randrange(2)]
        h[i, j] += d
        if i != j:
            h[j, i] += d
    elif what == "V":
        M = V[r.choice(sorted(V))] if isinstance(V, dict) else V
        diagonal = not isinstance(V, dict) or M is V["U"]
        i, j = r.randrange(n), r.randrange(n)
        if i == j and not diagonal:
            j = (i + 1) % n
        if i != j or diagonal:
            d = rs.uniform(.5, 2.)
            M[i, j] += d
            if i != j:
                M[j, i] += d
    elif what == "mu":
        cfg["mu"] = float(rs.normal())
    elif what == "hfmode":
        cfg["hfmode"] = not cfg["hfmode"]
    elif what == "z":
        cfg["z"] = rs.uniform(0, 2, n)
    ctx.count("changed_" + what)
    return what
