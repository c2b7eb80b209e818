"""C13: the Lanczos Green's function agrees with the exact thermal one."""
import numpy as np

import edp
import gfs
import ref
from vlib import Check

chk = Check("C13", needs=("psparse", "continued_fraction"), omp=2,
            rule="Random Hamiltonians (as for C12), temperatures and truncations of the eigenspace; a random history of builds "
                 "(site, spin, representation, separate parts, energy reference) on one eigenspace, each evaluated on random "
                 "complex frequencies, with all supplied arrays guarded. Oracle: Lehmann sum over exactly the retained "
                 "states, arrival spectra from the reference model; Lanczos truncation is granted what an exact "
                 "recursion of 20 steps may commit. Non-trivial: an arrival sector of more than 10 states was visited.",
            assumptions=["numba-compiled functions behave as their Python source (numba is not installed)",
                         "the retained eigenvectors themselves are the subject of C07"],
            require={"frequencies": 1, "cf": 1, "sp": 1, "separate": 1, "down_spin": 1, "lanczos_sectors": 1, "truncated": 1,
                     "builds_after_truncation": 1})


def build(ctx, H, V, espace, beta, egs, n):
    from edpyt.gf_lanczos import build_gf_lanczos
    r = ctx.rng
    pos, ispin = r.randrange(n), r.randrange(2)
    rep, sep = r.choice(["cf", "cf", "sp"]), r.random() < .35
    kw = dict(pos=pos, ispin=ispin, repr=rep)
    if ispin == 0 and r.random() < .3:
        del kw["ispin"]
    if rep == "cf" and r.random() < .3:
        del kw["repr"]
    if sep:
        kw["separate"] = True
    out = build_gf_lanczos(H, V, espace, beta, egs, **kw)
    ctx.count(rep)
    ctx.count("separate", sep)
    ctx.count("down_spin" if ispin else "up_spin")
    return pos, ispin, rep, sep, out


def verify(ctx, R, pos, ispin, rep, sep, out, beta, n):
    what = "%s site %d spin %d" % (rep, pos, ispin)
    P, W = R.poles(pos, pos, ispin)
    e, eta = gfs.freqs(ctx, P, 8, (1e-3, 1e-2, .1, 1., 10.) if n < 4 else (.1, 1., 2., 5., 20.))
    z = e + 1j * eta
    extra = R.slack((pos,), ispin, z) if n > 3 else np.zeros(e.size)
    ctx.count("frequencies_not_converged", int((extra > 1e-6).sum()))

    def val(f, x, y):
        return np.broadcast_to(np.asarray(f(x, y)), x.shape)
    parts = list(zip("eh", out)) if sep else [("both", out)]
    tot = 0
    for part, f in parts:
        P1, W1 = R.poles(pos, pos, ispin, part)
        got = val(f, e, eta)
        gfs.near(ctx, got, ref.lehmann(P1, W1, z), eta, "%s part %s equals its Lehmann sum" % (what, part), beta, extra=extra)
        ctx.check(bool(np.all(got.imag * np.sign(eta) <= 1e-10)), what + " causal sign", got=got, eta=eta)
        tot = tot + got
    gfs.near(ctx, tot, ref.lehmann(P, W, z), eta, what + ": electron and hole part add up", beta, extra=2 * extra)
    if ctx.rng.random() < .3:
        one = np.asarray(parts[0][1](float(e[0]), float(eta[0]))).reshape(-1)
        ctx.check(one.size == 1, "scalar argument gives one value", got=one)
        ctx.close(one[0], val(parts[0][1], e, eta)[0], "scalar and array evaluation agree", atol=1e-12, rtol=1e-9)
    ctx.count("frequencies", e.size)
    if ctx.rng.random() < .5:                   # other frequencies in the arrays handed over before
        f = parts[-1][1]
        e += .25
        eta *= ctx.rng.choice([.3, 1., 2.])
        ctx.close(val(f, e, eta), val(f, e.copy(), eta.copy()), "frequencies changed in place", atol=1e-12, rtol=1e-9)
        ctx.count("in_place_frequencies")


@chk.family("histories", quick=70, thorough=2500)
def histories(ctx):
    from edpyt.espace import build_espace
    r = ctx.rng
    n, H, V, cfg, beta = gfs.model(ctx, (1, 2, 3, 3, 4, 4, 4, 4) if not ctx.thorough else (1, 2, 3, 4, 4, 4, 4, 5),
                                   betas=(.1, 1., 5., 20., 100., 1e3))
    with edp.settings(**cfg):
        espace, egs = build_espace(H, V)
        kind = gfs.truncate(ctx, espace, egs, beta, n, None if n < 4 else 10)
        ctx.note(truncation=kind)
        ctx.count("truncated", kind != "full")
        keys = list(espace)
        R = gfs.Retained(H, V, n, espace, beta, egs, cfg)
        fr = edp.Frozen(H=H, **{"vec%d%d" % q: s.eigvecs for q, s in espace.items()})
        fe = edp.Frozen(**{"val%d%d" % q: s.eigvals for q, s in espace.items()})
        Vs = edp.Frozen(**(V if isinstance(V, dict) else {"V": V}))
        ids = {q: (id(s), id(s.eigvals), id(s.eigvecs)) for q, s in espace.items()}
        for _ in range(3 if n < 4 else 2):
            shift = r.choice([0., 0., 1.]) * ctx.np.uniform(-1, 1) * min(200. / beta, 5.)
            verify(ctx, R, *build(ctx, H, V, espace, beta, egs + shift, n), beta=beta, n=n)
            ctx.check(list(espace) == keys, "the eigenspace keeps its sectors", after=list(espace), before=keys)
            for q, s in espace.items():
                e, v = R.states[q]
                ctx.check(s.eigvals.shape == e.shape and s.eigvecs.shape == v.shape and np.array_equal(s.eigvals, e)
                          and np.array_equal(s.eigvecs, v),
                          "the eigenspace is left as it was", sector=q, levels=s.eigvals.size, before=e.size)
                ctx.count("sectors_guarded")
        for f in (fr, fe, Vs):
            f.verify(ctx)
    if n > 3:
        dim = lambda q: 0 if min(q) < 0 or max(q) > n else len(ref.basis(n, q[0])) * len(ref.basis(n, q[1]))
        ctx.count("lanczos_sectors", sum(dim((q[0] + d, q[1])) > 10 for q in keys for d in (-1, 1)))
        ctx.nontrivial(ctx.seed)


@chk.family("order", quick=12, thorough=300)
def order(ctx):
    """The function obtained does not depend on what was built before it."""
    from edpyt.espace import build_espace
    from edpyt.gf_lanczos import build_gf_lanczos
    r, rs = ctx.rng, ctx.np
    n, H, V, cfg, beta = gfs.model(ctx, (2, 3, 4) if ctx.thorough else (2, 3, 3, 4), betas=(.5, 3., 20.))
    e, eta = rs.uniform(-5, 5, 12), rs.uniform(.3, 2, 12)
    with edp.settings(**cfg):
        espace, egs = build_espace(H, V)
        gfs.truncate(ctx, espace, egs, beta, n, None if n < 4 else 6)
        jobs = [(p, s, k) for p in range(n) for s in range(2) for k in ("cf", "sp")]
        jobs = r.sample(jobs, min(len(jobs), 3))

        def run(order):
            res = {}
            for p, s, k in order:
                res[p, s, k] = np.broadcast_to(build_gf_lanczos(H, V, espace, beta, egs, pos=p, ispin=s, repr=k)(e, eta), e.shape)
            return res
        a = run(jobs)
        b = run(jobs[::-1])
        for k in a:
            ctx.close(b[k], a[k], "same function whatever was built before", atol=1e-9, rtol=1e-9)
            ctx.count("orders_compared")
    ctx.count("frequencies", e.size)
    ctx.nontrivial(ctx.seed)


@chk.family("weights", quick=20, thorough=300)
def weights(ctx):
    """Complete eigenspace: unit weight, agreement with the exact builder, resolvent limit."""
    from edpyt.espace import build_espace
    from edpyt.gf_exact import build_gf_exact
    from edpyt.gf_lanczos import build_gf_lanczos
    r, rs = ctx.rng, ctx.np
    n, H, V, cfg, beta = gfs.model(ctx, (1, 2, 3, 3, 3, 4) if ctx.thorough else (1, 2, 3), betas=(.2, 2., 20.))
    with edp.settings(**cfg):
        espace, egs = build_espace(H, V)
        p, s = r.randrange(n), r.randrange(2)
        ge = build_gf_exact(H, V, espace, beta, egs, pos=p, ispin=s)
        for rep in ("cf", "sp"):
            gl = build_gf_lanczos(H, V, espace, beta, egs, pos=p, ispin=s, repr=rep)
            e = rs.uniform(-6, 6, 12)
            eta = rs.choice([-1., 1.], 12) * rs.uniform(1., 3., 12)
            ctx.close(np.asarray(gl(e, eta)), np.asarray(ge(e, eta)), "both builders agree", atol=1e-6, rtol=0)
            w = np.asarray(gl(0., 1e7)).reshape(-1)[0] * 1e7j
            ctx.close(w, 1., "spectral weight adds up to one", atol=1e-5, rtol=0)
            ctx.count(rep)
            ctx.count("frequencies", 12)
    ctx.nontrivial(ctx.seed)

@chk.family("history", quick=24, thorough=500)
def history(ctx):
    """The model changes in the caller's arrays between builds; earlier functions stay what they were."""
    from edpyt.espace import build_espace
    r = ctx.rng
    n, H, V, cfg, beta = gfs.model(ctx, (2, 3, 3, 4), betas=(.5, 3., 20.))
    old = []
    for _ in range(3 if n < 4 else 2):
        with edp.settings(**cfg):
            espace, egs = build_espace(H, V)
            for k in range(2):                  # the eigenspace is truncated further, the temperature may be another
                gfs.truncate(ctx, espace, egs, beta, n, None if n < 3 else (14, 5)[k] if n < 4 else (4, 2)[k])
                b = beta if r.random() < .6 else r.choice([.5, 3., 20.])
                R = gfs.Retained(H, V, n, espace, b, egs, cfg)
                pos, ispin, rep, sep, out = build(ctx, H, V, espace, b, egs, n)
                verify(ctx, R, pos, ispin, rep, sep, out, b, n)
                ctx.count("builds_after_truncation", k)
                e, eta = ctx.np.uniform(-5, 5, 6), ctx.np.uniform(.3, 2, 6)
                fs = out if sep else [out]
                old.append((fs, e, eta, [np.array(f(e, eta)) for f in fs]))
        ctx.note(changed=gfs.change(ctx, H, V, cfg, n))
    for fs, e, eta, got in old:
        for f, g in zip(fs, got):
            ctx.close(np.asarray(f(e, eta)), g, "a function built earlier stays the same", atol=1e-12, rtol=1e-10)
    ctx.nontrivial(ctx.seed)


chk.main()
