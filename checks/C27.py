"""C27: the DMFT loop stops when it should, in the right order, on causal functions."""
import contextlib
import io

import numpy as np

import gfs  # noqa: F401
from vlib import Check

chk = Check("C27", needs=("psparse", "continued_fraction"), omp=1,
            rule="Histories of calls of the self-consistency map with recording impurities (fit/update/solve/Sigma logged) on real "
                 "and scripted lattices: scripted sequences of errors above, at and below the tolerance, any iteration limit, "
                 "complex hybridisations with non-causal entries, adjustment of the potential, several impurities and spins, "
                 "magnetic starts; complete self-consistent runs with both mixings, broken off by the loop's own signals. Every "
                 "call is judged from the log. Non-trivial: distinct history of at least three calls.",
            assumptions=["an impurity recorder derives from the library's impurity and replaces fitting and solving",
                         "linear mixing has an iteration limit of its own; it is set beyond the loop's limit"],
            require={"calls": 1, "converged": 1, "failed": 1, "clamped": 1, "runs": 1, "adjusted": 1, "magnetic": 1})


@contextlib.contextmanager
def quiet():
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        yield out


def probe(log, **kw):
    """An impurity of the library whose fits and solutions are recorded instead of computed."""
    from edpyt import dmft as d

    class One(d.Gfimp):
        def fit(self, delta):
            log.append(("fit", self, np.array(delta)))
            self.Delta.x[:] = np.abs(delta).mean(), np.abs(delta).max() + .1
            self.H[1, 1], self.H[0, 1] = self.Delta.x
            self.H[1, 0] = self.H[0, 1]

        def update(self, mu):
            log.append(("update", self, float(mu)))
            d.Gfimp.update(self, mu)

        def reset_bath(self):
            log.append(("reset", self, None))
            d.Gfimp.reset_bath(self)

        def solve(self):
            log.append(("solve", self, None))

        def Sigma(self, z):
            log.append(("sigma", self, None))
            return self.canned(z)

    g = One(2, **kw)
    g.log = log
    g.canned = lambda z: 0. * z
    return g


class Scripted(object):
    """A lattice whose hybridisation follows a script; remembers the self-energy it was given."""

    def __init__(self, base, log):
        self.__dict__.update(base=base, log=log, script=[], mu=0., Sigma=None)

    ed = 0.

    def update(self, mu):
        self.log.append(("mu", self, np.array(mu)))
        self.mu = mu

    def set_local(self, S):
        self.log.append(("local", self, S))
        self.Sigma = S

    def Delta(self, z):
        self.log.append(("Delta", self, np.array(z)))
        return self.script.pop(0)

    def integrate(self, mu):
        return np.array([1 + np.tanh(.3 * (mu - .7)) * .9, .5])


def rand_delta(ctx, shape):
    rs = ctx.np
    d = rs.normal(size=shape) - 1j * rs.rand(*shape)
    k = ctx.rng.random()
    if k < .5:
        m = rs.rand(*shape) < .4
        d.imag[m] = rs.rand(int(m.sum())) * ctx.rng.choice([1., 1., 1e-9, 1e-13, 1e-30, 1e-300])
    elif k < .6:
        d.imag[:] = 0.
    return d


def clamp(d):
    d = np.array(d)
    d.imag[d.imag > 0] = -1e-20
    return d


@chk.family("scripted", quick=400, thorough=6000)
def scripted(ctx):
    """Errors above, at and below the tolerance in a prescribed order."""
    from edpyt.dmft import DMFT, Converged, FailedToConverge
    r, rs = ctx.rng, ctx.np
    nm, beta = r.choice([1, 4, 7]), r.choice([5., 70.])
    U = r.uniform(0, 4)
    log = []
    g = probe(log, nmats=nm, beta=beta, U=U)
    loc = Scripted(None, log)
    loc.ed = r.choice([0., 0., float(rs.normal())])
    mx = r.choice([0, 1, 2, 3, 5])
    tol = r.choice([1e-3, 1e-6, .5])
    alpha = r.choice([0., 1., 2.])
    adj = r.random() < .3
    goal = 1.3 if adj else r.choice([None, 1., np.array([.4, .6])])
    kw = dict(max_iter=mx, tol=tol)
    if adj:
        kw.update(adjust_mu=True, occupancy_goal=goal)
    elif goal is not None:
        kw.update(occupancy_goal=goal)
    if alpha:
        kw.update(alpha=alpha)
    with quiet():
        S = DMFT(g, loc, **kw)
    wn = (2 * np.arange(nm) + 1) * np.pi / beta
    ctx.close(S.z, 1j * wn, "Matsubara frequencies", atol=1e-12)
    mu = r.choice([None, 0., float(rs.normal())])
    first = rand_delta(ctx, (nm,))
    loc.script = [first.copy()]
    sg = lambda z: 0. * z
    with quiet():
        d = S.initialize(U, sg) if mu is None else S.initialize(U, sg, mu=mu) if r.random() < .5 else S.initialize(U, sg, mu)
    mu = U / 2 if mu is None else mu
    ctx.close(d, first, "the start is the lattice's hybridisation", atol=0)
    ctx.check(loc.Sigma is sg and loc.mu == mu, "the start uses the given self-energy and potential", mu=loc.mu, want=mu)
    ctx.close(g.H[0, 0], loc.ed - mu, "level of the impurity at the start", atol=1e-12)
    ctx.check(any(e[0] == "reset" for e in log), "the bath is reset at the start")
    done, sig, handed = 0, [], []
    ctx.note(nmats=nm, max_iter=mx, tol=tol, alpha=alpha, adjust=adj, mu=mu, ed=loc.ed)
    for c in range(mx + 3):
        inp = rand_delta(ctx, (nm,))
        cl = clamp(inp)
        k = r.choice(["above", "above", "above", "below", "edge-", "edge+", "above", "above", "below", "edge-", "edge+", "broken"])
        v = rs.normal(size=nm) + 1j * rs.normal(size=nm)
        v /= np.linalg.norm(v)
        size = {"above": tol * r.choice([1.5, 100]), "below": tol * r.choice([0., .3]), "edge-": tol * (1 - 1e-6), "edge+": tol * (1 + 1e-6), "broken": 1.}[k]
        out = cl + size * v
        if k == "broken":        # the lattice returned no numbers: a change that is not below the tolerance
            out[r.randrange(nm)] = r.choice([complex("nan"), complex("nan"), complex("inf")])
            ctx.count("broken")
        new = not np.linalg.norm(out - cl) < tol
        loc.script = [out.copy()]
        del log[:]
        m0 = loc.mu
        it0 = S.it
        how, back = "returned", None
        use = r.random() < .3
        try:
            with quiet():
                back = S.distance(inp) if use else S(inp)
        except Converged:
            how = "Converged"
        except FailedToConverge:
            how = "FailedToConverge"
        sig.append((k, how))
        done += new
        want = "Converged" if not new else "returned" if done <= mx else "FailedToConverge"
        ctx.check(how == want, "signal of call %d: %s, expected %s" % (c + 1, how, want), error=size, tol=tol, unconverged=done, max_iter=mx)
        ctx.check(S.it == done, "one iteration counted per unconverged call", got=S.it, want=done)
        for was, kept, copy in handed:
            ctx.check(np.array_equal(kept, copy, equal_nan=True), "the hybridisation returned by call %d is still what it was" % was, now=kept, then=copy)
        if back is not None:
            handed.append((c + 1, back, np.array(back)))
        if how == "returned":
            if use:
                ok = np.isfinite(out)
                ctx.close(np.asarray(back)[ok], (wn ** -alpha * (out - cl))[ok], "weighted change of the hybridisation", atol=1e-12)
            else:
                ctx.check(np.array_equal(back, out, equal_nan=True), "the new hybridisation is returned", got=back, want=out)
        # order of the steps and their arguments
        ops = [e[0] for e in log]
        ctx.check(ops.count("fit") == 1 and ops.count("solve") == 1 and ops.count("Delta") == 1 and "update" in ops, "fit, update, solve once", ops=ops)
        if ops.count("fit") == 1 and ops.count("solve") == 1 and "Delta" in ops and "update" in ops and "local" in ops:
            fit = log[ops.index("fit")]
            ctx.check(np.array_equal(fit[2].real, cl.real) and bool(np.all(fit[2].imag <= 0)), "a causal hybridisation is fitted", fitted=fit[2], given=inp)
            ctx.close(fit[2], cl, "the given hybridisation is fitted", atol=1e-15, rtol=0)
            so = ops.index("solve")
            ups = [i for i, o in enumerate(ops) if o == "update" and i < so]
            ctx.check(ups and ops.index("fit") < so, "fit and update precede the solution", ops=ops)
            if ups:
                ctx.close(log[ups[-1]][2], m0 - loc.ed, "level of the impurity", atol=1e-12)
            ctx.check(so < ops.index("Delta"), "the lattice follows the solution", ops=ops)
            ctx.check(loc.Sigma == g.Sigma, "the lattice uses the impurity's self-energy")
            if adj:
                ctx.close(np.sum(loc.integrate(loc.mu)), goal, "the potential meets the occupation", atol=1e-8)
                mus = [i for i, o in enumerate(ops) if o == "mu"]
                ctx.check(mus and mus[-1] < ops.index("Delta") and mus[0] > ops.index("local"), "the potential is adjusted between solution and lattice", ops=ops)
                ctx.count("adjusted")
            else:
                ctx.check(loc.mu == m0, "the potential is kept", got=loc.mu, want=m0)
        ctx.count("calls")
        ctx.count("clamped", bool((inp.imag > 0).any() or (cl.imag == -1e-20).any()))
        ctx.count(how.lower().replace("failedtoconverge", "failed"))
        if c >= 2:
            ctx.nontrivial(tuple(sig), mx)


def lattice(ctx, k):
    """A real lattice with k impurity sites (k=0: single-site Bethe)."""
    from edpyt import dmft, nano_dmft
    r, rs = ctx.rng, ctx.np
    if not k:
        if r.random() < .5:
            return dmft.Gfhilbert(dmft.ht), None
        gam = rs.uniform(.1, .6)
        return dmft.Gfhybrid(lambda z: gam / (z + 1j * np.sign(z.imag))), None
    n = k + r.choice([0, 1, 2])
    H = rs.normal(size=(n, n)) * .4
    H = (H + H.T) / 2
    neq = np.arange(k)
    inv = np.concatenate([neq, rs.randint(k, size=n - k)])
    gam = np.diag(rs.uniform(.2, .6, n))
    return nano_dmft.Gfloc(H, np.eye(n), lambda z: -1j * np.sign(z.imag) * gam, neq, inv), H


@chk.family("recorded", quick=150, thorough=2500)
def recorded(ctx):
    """Real lattices, one or several recording impurities, spin resolved or not, magnetic starts."""
    from edpyt import dmft, nano_dmft
    from edpyt.dmft import DMFT, Converged, FailedToConverge
    r, rs = ctx.rng, ctx.np
    nm, beta = r.choice([3, 6]), r.choice([5., 30.])
    k = r.choice([0, 0, 1, 2, 3])
    sp = r.random() < .5
    U = r.uniform(.5, 4)
    loc, H = lattice(ctx, k)
    log = []

    def one():
        if not sp:
            return probe(log, nmats=nm, beta=beta, U=U)
        g = dmft.SpinGfimp(2, nmats=nm, beta=beta, U=U)
        for s in range(2):
            p = probe(log, nmats=nm, beta=beta, U=U, spin=s)
            p.H = g.H[s]
            g.gfimp[s] = p
        g.solve = lambda: log.append(("solve", g, None))
        return g

    imps = [one() for _ in range(max(1, k))]
    for i, g in enumerate(imps):
        for s, p in enumerate(g.gfimp if sp else [g]):
            c, w, e = rs.normal(), rs.rand(), rs.normal()
            p.canned = lambda z, c=c, w=w, e=e: c + w / (z - e)
    g = imps[0] if not k else nano_dmft.Gfimp(imps)
    S = DMFT(g, loc, max_iter=4, tol=r.choice([1e-8, 1e3]), **({} if r.random() < .5 else {"occupancy_goal": 1.}))
    mu = float(rs.normal())
    sh = (k,) if k else ()
    sig0 = np.zeros(sh + ((2,) if sp and k and r.random() < .5 else ()) + (1,))
    S0 = lambda z: np.broadcast_to(sig0, sig0.shape[:-1] + (np.size(z),)) + 0j
    ed = loc.ed
    ctx.note(k=k, spin=sp, mu=mu, ed=ed, nmats=nm, beta=beta)
    magnetic = sp and sig0.ndim == 1 + len(sh) and r.random() < .5

    def expected(sigma, mu):
        loc2_mu, loc2_S = loc.mu, loc.Sigma
        loc.update(mu)
        loc.set_local(sigma)
        d = loc.Delta(S.z)
        loc.update(loc2_mu)
        loc.set_local(loc2_S)
        return np.array(d)

    def level(i, s):
        p = imps[i].gfimp[s] if sp else imps[i]
        return float(p.H[0, 0])

    e = np.broadcast_to(ed, max(1, k))
    with quiet():
        if magnetic:
            sign, field = (np.array([r.choice([1, -1]) for _ in range(k)]) if k else r.choice([1, -1])), r.uniform(.1, .5)
            d = S.initialize_magnetic(U, S0, sign, field, mu)
            sg = np.broadcast_to(sign, max(1, k))
            up = [x for x in log if x[0] == "fit"]
            ctx.check(len(up) == max(1, k) and all(x[1] is imps[i].up for i, x in enumerate(up)), "the magnetic start fits the up impurities", n=len(up))
            for i in range(max(1, k)):
                ctx.close(level(i, 0), e[i] - mu - sg[i] * field, "field on the up spin", atol=1e-12)
                ctx.close(level(i, 1), e[i] - mu + sg[i] * field, "field on the down spin", atol=1e-12)
                x0, x1 = imps[i].up.Delta.x, imps[i].dw.Delta.x
                ctx.close(x0, x1, "the magnetic start uses one bath", atol=0)
                for p in imps[i].gfimp:
                    ctx.close([p.H[1, 1], p.H[0, 1], p.H[1, 0]], list(x0) + [x0[1]], "both spins are coupled to it", atol=0)
            want0 = expected(S0, mu)
            for i, x in enumerate(up):
                ctx.close(x[2], want0[i] if k else want0, "the magnetic start fits the initial hybridisation", atol=1e-10)
            ctx.check([x[0] for x in log].count("solve") == max(1, k), "the magnetic start solves every impurity once")
            ctx.close(d, expected(g.Sigma, mu), "hybridisation after the magnetic start", atol=1e-10)
            ctx.count("magnetic")
        else:
            d = S.initialize(U, S0, mu)
            ctx.close(d, expected(S0, mu), "the start is the lattice's hybridisation", atol=1e-10)
            for i in range(max(1, k)):
                for s in range(2 if sp else 1):
                    ctx.close(level(i, s), e[i] - mu, "level of the impurity at the start", atol=1e-12)
    ctx.close(loc.mu, mu, "potential in force", atol=0)
    n, shape = 0, sh + ((2,) if sp else ()) + (nm,)
    for c in range(3):
        inp = np.array(d) if c == 0 and np.shape(d) == shape and r.random() < .7 else rand_delta(ctx, shape)
        cl = clamp(inp)
        del log[:]
        try:
            with quiet():
                back, how = S(inp), "returned"
        except Converged:
            back, how = None, "converged"
        except FailedToConverge:
            back, how = None, "failed"
        want = expected(g.Sigma, mu)
        err = np.linalg.norm(want - cl)
        n += err >= S.tol
        if abs(err / S.tol - 1) > 1e-6:
            ctx.check(how == ("converged" if err < S.tol else "failed" if n > 4 else "returned"), "signal", got=how, error=err, tol=S.tol, calls=n)
        if back is not None:
            ctx.close(np.asarray(back), want, "the new hybridisation is returned", atol=1e-10)
        fits = [x for x in log if x[0] == "fit"]
        order = [p for g0 in imps for p in (g0.gfimp if sp else [g0])]
        ctx.check(sorted(id(x[1]) for x in fits) == sorted(map(id, order)), "every impurity%s is fitted once" % (" and spin" if sp else ""), n=len(fits))
        flat = cl.reshape(-1, nm)
        for x in fits:
            ctx.close(x[2], flat[[p is x[1] for p in order].index(True)], "each is fitted to its causal hybridisation", atol=1e-15, rtol=0)
        for i in range(max(1, k)):
            for s in range(2 if sp else 1):
                ctx.close(level(i, s), e[i] - mu, "level of the impurity", atol=1e-12)
        so = [i for i, x in enumerate(log) if x[0] == "solve"]
        ctx.check(len(so) == len(imps), "every impurity is solved once", n=len(so))
        for q, x in enumerate(log):
            if x[0] in ("fit", "update") and so:
                mine = [i for i in so if log[i][1] is x[1] or (sp and x[1] in log[i][1].gfimp)]
                ctx.check(mine and q < mine[0], "fit and update precede the solution of their impurity", op=x[0])
        ctx.check(loc.Sigma == g.Sigma, "the lattice uses the impurity's self-energy")
        ctx.check(S.it == n, "one iteration counted per unconverged call", got=S.it, want=n)
        ctx.count("calls")
        ctx.count(how)
        ctx.count("clamped", bool((cl.imag == -1e-20).any()))
    ctx.nontrivial(ctx.family, ctx.seed)


@chk.family("runs", quick=40, thorough=220)
def runs(ctx):
    """Complete self-consistent calculations with real fits and solutions."""
    from edpyt import dmft, nano_dmft
    from edpyt.dmft import DMFT, Converged, FailedToConverge
    r, rs = ctx.rng, ctx.np
    mixing = r.choice(["broyden", "linear"])
    k = r.choice([0, 0, 0, 1, 2])
    sp = r.random() < .3
    U, beta, nm = r.choice([0., 1., 2.]), r.choice([10., 30.]), r.choice([8, 16])
    n = r.choice([2, 3])
    loc, H = lattice(ctx, k)
    make = lambda: (dmft.SpinGfimp if sp else dmft.Gfimp)(n, nmats=nm, U=U, beta=beta)
    imps = [make() for _ in range(max(1, k))]
    g = imps[0] if not k else nano_dmft.Gfimp(imps)
    mx, tol = r.choice([(3, 1e-4), (12, 1e-2), (25, 1e-3), (1, 1e-9), (6, .3)])
    S = DMFT(g, loc, max_iter=mx, tol=tol, alpha=r.choice([0., 1.]), occupancy_goal=1.)
    sh = ((k,) if k else ()) + ((2,) if sp else ())
    S0 = lambda z: np.full(sh + (np.size(z),), U / 2 + 0j)
    trace = []
    ctx.note(mixing=mixing, k=k, spin=sp, U=U, beta=beta, nm=nm, n=n, max_iter=mx, tol=tol)
    step = S.step

    def watched(delta):
        ctx.check(bool(np.all(np.imag(delta) <= 0)), "only causal functions are fitted", delta=delta)
        rec = [np.array(delta), None]
        trace.append(rec)
        occ, new = step(delta)
        rec[1] = np.array(new)
        return occ, new

    S.step = watched
    how = None
    with quiet():
        d = S.initialize(U, S0)
        try:
            if mixing == "linear":
                S.solve(d, mixing_method="linear", alpha=r.choice([.2, .7]), iter=mx + 40)
            elif r.random() < .5:
                S.solve(d, mixing_method="broyden", alpha=r.choice([.5, .3]), verbose=False)
            else:
                S.solve(d, verbose=r.random() < .5)
            how = "nothing"
        except Converged:
            how = "converged"
        except FailedToConverge:
            how = "failed"
        except Exception as ex:      # numerical breakdown of the mixing itself
            how = type(ex).__name__
    err = [float(np.linalg.norm(b - a)) for a, b in trace if b is not None]
    bad = [x for x in err if not x < tol]
    ctx.note(errors=err, ended=how)
    if trace and trace[-1][1] is None:
        ctx.fail("a step of the loop failed: " + str(how))
    if not all(np.isfinite(err)):
        ctx.count("diverged")
        return
    ctx.check(how in ("converged", "failed"), "a run ends with one of the two signals", got=how)
    if how == "converged":
        ctx.check(err[-1] < tol and len(bad) == len(err) - 1, "converged at the first error below the tolerance", errors=err)
    elif how == "failed":
        ctx.check(len(bad) == len(err) == mx + 1, "failed after the allowed iterations", errors=err, max_iter=mx)
    if not k and not sp and H is None:
        z = S.z
        s = np.asarray(g.Sigma(z))
        ctx.check(bool(np.all(s.imag < 1e-6)), "causal self-energy", s=s)
    ctx.count("runs")
    ctx.count("calls", len(err))
    ctx.count(how)
    if len(err) > 2:
        ctx.nontrivial(ctx.family, ctx.seed)


chk.main()
