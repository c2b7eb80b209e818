"""C19: the closed-form cotunneling integrals equal the regularised thermal integrals."""
import numpy as np

from thermal import cross, regularised
from vlib import Check

chk = Check("C19",
            rule="Random amplitudes, levels, chemical potentials (equal, equal up to 1e-14..1e-3 kT, moderate, hundreds of kT "
                 "apart, both signs) and temperatures for the one-, two- and four-level forms. Oracle: quadrature of the "
                 "defining energy integral, Hadamard finite part for double poles and principal value for simple ones "
                 "(panel Gauss-Legendre in the distance from the pole). Monitored symmetries: exchange of the chemical "
                 "potentials, amplitude scaling, common shift of energies, mirror. Non-trivial: unequal amplitudes and chemical potentials "
                 "or an equal/near-equal pair.",
            assumptions=["levels on resonance included: the finite part is then what 'removed in the standard way' means",
                         "quadrature accurate to 1e-8 relative to the integral of the absolute integrand"],
            require={"equal_mu": 1, "nearly_equal_mu": 1, "degenerate_levels": 1, "far_mu": 1, "integrals": 1, "scaled_amplitudes": 1})

def rounding(levels, mu, beta):
    """What double precision costs the closed form: O(1e-15) digamma values under nB/(eps_A-eps_B)."""
    x = abs(mu[1] - mu[0]) * beta
    s = (mu[1] - mu[0]) * beta
    nb = 1. if x < 1e-4 else abs(1 / np.expm1(s)) if s < 500 else np.exp(-s)
    tot = 0.
    for k, a in enumerate(levels):
        tot += beta * nb * 1e-14
        for b in levels[:k]:
            d = max(abs(a - b), 1e-4 / beta)
            tot += 2 * nb / d * 2e-14 * (1 + np.log1p(beta * max(abs(u - v) for u in (a, b) for v in mu)))
    # rounding of the difference of chemical potentials itself
    return tot


def pair(ctx):
    r, rs = ctx.rng, ctx.np
    beta = 10 ** rs.uniform(-.5, 3)
    m = r.choice([0., 0., .3, -2., 10.])
    k = r.choice(["equal", "near", "near", "moderate", "moderate", "moderate", "far"])
    x = {"equal": 0., "near": r.choice([-1, 1]) * 10 ** rs.uniform(-14, -2), "moderate": rs.uniform(-12, 12),
         "far": r.choice([-1, 1]) * rs.uniform(30, 400)}[k]
    if k == "near" and r.random() < .4:
        x = r.choice([-1, 1]) * 1e-4 * rs.uniform(.98, 1.02)
    ctx.count({"equal": "equal_mu", "near": "nearly_equal_mu", "moderate": "moderate_mu", "far": "far_mu"}[k])
    mu = (m, m + x / beta)
    return mu, beta, r.choice([tuple, list, np.array])


def level(ctx, mu, beta):
    r, rs = ctx.rng, ctx.np
    k = r.random()
    if k < .15:
        return r.choice(mu)                       # on resonance
    if k < .5:
        return r.choice(mu) + rs.uniform(-8, 8) / beta
    if k < .8:
        return r.choice(mu) + r.choice([-1, 1]) * 10 ** rs.uniform(.5, 2.5) / beta
    return rs.uniform(-4, 4)


def amp(ctx):
    r, rs = ctx.rng, ctx.np
    return r.choice([0., 1., -1., rs.uniform(-2, 2), rs.uniform(-2, 2), rs.uniform(-2, 2), 10 ** rs.uniform(-6, 2)])


def amplitudes(ctx, k):
    """Amplitudes of one process: as drawn, or all of them weak or strong together."""
    A = [amp(ctx) for _ in range(k)]
    if ctx.rng.random() < .3:
        f = 10 ** ctx.np.uniform(-10, 3)
        A = [float(a * f) for a in A]
        ctx.count("scaled_amplitudes")
    return A


def levels(ctx, mu, beta, m):
    r, rs = ctx.rng, ctx.np
    e = [level(ctx, mu, beta) for _ in range(m)]
    for k in range(1, m):
        if r.random() < .3:
            e[k] = e[r.randrange(k)] + r.choice([0., r.choice([-1, 1]) * 10 ** rs.uniform(-12, -1) / beta, r.choice([-1, 1]) * 10 ** rs.uniform(-3.8, -.3) / beta])
            ctx.count("degenerate_levels")
    return e


def reference(A, E, mu, beta):
    v, tol = regularised(A, E, mu, beta)
    # ill-conditioning of x = beta*(mu1-mu0) and of the level differences as the floating-point numbers given
    amps = max(np.abs(A)) ** 2 * len(A) ** 2
    return v, tol + amps * rounding(E, mu, beta) + 1e-300


def judge(ctx, name, got, A, E, mu, beta):
    ctx.note(form=name, A=A, E=E, mu=mu, beta=beta)
    got = float(got)
    want, tol = reference(A, E, mu, beta)
    ctx.check(np.isfinite(got), "%s is finite" % name, got=got)
    ctx.check(abs(got - want) <= tol, "%s equals its energy integral" % name, got=got, want=want, tol=tol,
              ratio=abs(got - want) / tol)
    ctx.count("integrals")
    return got, tol


def call(name, A, E, mu, beta):
    from edpyt import integrals as I
    return float(getattr(I, name)(*(list(A) + list(E) + [mu, beta])))


FORMS = {"I1": 1, "Gamma1": 1, "I2": 2, "Gamma2": 2, "Gamma4": 4}


@chk.family("values", quick=700, thorough=9000)
def values(ctx):
    r = ctx.rng
    mu, beta, box = pair(ctx)
    name = r.choice(["I1", "Gamma1", "I2", "Gamma2", "Gamma2", "Gamma4"])
    m = FORMS[name]
    A, E = amplitudes(ctx, m), levels(ctx, mu, beta, m)
    given = box(mu)
    got = call(name, A, E, given, beta)
    ctx.check(tuple(given) == mu, "the chemical potentials given are left alone", after=given)
    if name == "I2":
        ctx.note(form=name, A=A, E=E, mu=mu, beta=beta)
        v, t = cross(E[0], E[1], mu, beta)
        v, t = v * A[0] * A[1], abs(A[0] * A[1]) * (t + 2 * rounding(E, mu, beta)) + 1e-300
        ctx.check(np.isfinite(got) and abs(got - v) <= t, "I2 equals its energy integral", got=got, want=v, tol=t)
        ctx.count("integrals")
    else:
        judge(ctx, name, got, A, E, mu, beta)
    ctx.count(name)
    ctx.nontrivial(ctx.seed)


@chk.family("ladder", quick=60, thorough=2000)
def ladder(ctx):
    """One system followed through temperatures, bias or amplitudes: what came before is immaterial."""
    r, rs = ctx.rng, ctx.np
    mu, beta, box = pair(ctx)
    name = r.choice(["Gamma1", "Gamma2", "Gamma2", "Gamma4"])
    m = FORMS[name]
    A, E = amplitudes(ctx, m), levels(ctx, mu, beta, m)
    what = r.choice(["temperature", "temperature", "fine", "bias", "levels", "amplitudes"])
    first = judge(ctx, name, call(name, A, E, box(mu), beta), A, E, mu, beta)[0]
    a, e, p, b = list(A), list(E), mu, beta
    for step in range(4):
        if what == "temperature":
            b *= r.choice([.5, 2., 1.1, .9])
        elif what == "fine":
            b *= 1 + r.choice([-1, 1]) * 10 ** rs.uniform(-4, -2)
        elif what == "bias":
            p = (p[0], p[1] + r.choice([-1, 1]) * 10 ** rs.uniform(-4, 0) / b)
        elif what == "levels":
            e[r.randrange(m)] += r.choice([-1, 1]) * 10 ** rs.uniform(-4, 0) / b
        else:
            a[r.randrange(m)] = amp(ctx)
        judge(ctx, name, call(name, a, e, box(p), b), a, e, p, b)
    again = call(name, A, E, box(mu), beta)
    ctx.check(again == first, "same value when asked again", form=name, A=A, E=E, mu=mu, beta=beta, first=first, again=again)
    ctx.count("ladders")
    ctx.nontrivial(ctx.seed)


@chk.family("continuity", quick=30, thorough=900)
def continuity(ctx):
    """Approach the limit of equal chemical potentials (and of degenerate levels) through all scales."""
    r, rs = ctx.rng, ctx.np
    beta = 10 ** rs.uniform(-.5, 2.5)
    m = rs.uniform(-1, 1)
    name = r.choice(["Gamma1", "Gamma2", "Gamma4"])
    k = FORMS[name]
    A, E = [rs.uniform(-2, 2) for _ in range(k)], [m + rs.uniform(-10, 10) / beta for _ in range(k)]
    if k > 1 and r.random() < .3:
        E[1] = E[0]
    ctx.note(form=name, A=A, E=E, mu=m, beta=beta)
    scale = sum(abs(a) for a in A) ** 2 * beta
    base = call(name, A, E, (m, m), beta)
    ctx.count("equal_mu")
    ctx.check(np.isfinite(base), "finite at equal chemical potentials", got=base)
    for p in list(range(-15, -1)):
        for sgn in (-1, 1):
            x = sgn * 10. ** p
            v = call(name, A, E, (m - .5 * x / beta, m + .5 * x / beta), beta)
            allow = scale * (2 * abs(x) + 1e-9 + (1e-13 / abs(x) if abs(x) >= .9e-4 else 0) * (1 if k == 1 else 1e2))
            if k > 1:
                gap = min(max(abs(a - b) * beta, 1e-4) for i, a in enumerate(E) for b in E[:i])
                allow += scale * (1e-13 / gap / abs(x) if abs(x) >= .9e-4 else 1e-13 / gap)
            ctx.check(abs(v - base) <= allow, "continuous at equal chemical potentials", x=x, got=v, limit=base, allow=allow)
            ctx.count("nearly_equal_mu")
    if k > 1:
        mu = (m, m + rs.uniform(-5, 5) / beta)
        E[1] = E[0]
        lim = call(name, A, E, mu, beta)
        ctx.check(np.isfinite(lim), "finite for degenerate levels", got=lim)
        for p in range(-12, -1):
            d = r.choice([-1, 1]) * 10. ** p
            F = [E[0], E[0] + d / beta] + E[2:]
            v = call(name, A, F, mu, beta)
            allow = scale * (2 * abs(d) + 1e-8) + abs(A[0]) * sum(map(abs, A)) * rounding(F, mu, beta) * 10
            ctx.check(abs(v - lim) <= allow, "continuous at degenerate levels", d=d, got=v, limit=lim, allow=allow)
            ctx.count("degenerate_levels")
    ctx.nontrivial(ctx.seed)


@chk.family("symmetry", quick=130, thorough=4000)
def symmetry(ctx):
    r, rs = ctx.rng, ctx.np
    mu, beta, box = pair(ctx)
    name = r.choice(["Gamma1", "Gamma2", "Gamma4", "I1", "I2"])
    k = FORMS[name]
    A, E = amplitudes(ctx, k), levels(ctx, mu, beta, k)
    ctx.note(form=name, A=A, E=E, mu=mu, beta=beta)
    v = call(name, A, E, box(mu), beta)
    amps = max(map(abs, A)) ** 2 * k * k
    tol = lambda m: amps * 10 * rounding(E, m, beta) + 1e-300
    # exchange of the two chemical potentials
    back = (mu[1], mu[0])
    w = call(name, A, E, box(back), beta)
    x = beta * (mu[0] - mu[1])
    # compare in the direction of the Boltzmann factor below one
    a, b, m = (v, w, mu) if x <= 0 else (w, v, back)
    f = np.exp(-abs(x))
    ctx.check(abs(a - b * f) <= tol(m) + f * tol(m[::-1]) + 1e-9 * (abs(a) + abs(b) * f),
              "exchange of the chemical potentials gives the Boltzmann factor", a=a, b=b, factor=f, tol=tol(m))
    # amplitudes
    lam = r.choice([-1., 2., -.5, 3., 1e-3, 1e-7, -1e-9, 1e4])
    s = call(name, [lam * q for q in A], E, box(mu), beta)
    ctx.check(abs(s - lam ** 2 * v) <= lam ** 2 * tol(mu) + 1e-12 * abs(s), "quadratic in the amplitudes", lam=lam, got=s, want=lam ** 2 * v)
    # common shift of energies
    d = r.choice([.5, -1., 2.])
    s = call(name, A, [e + d for e in E], box((mu[0] + d, mu[1] + d)), beta)
    gap = max(abs(x), 1e-4)
    cond = 1e-14 * (1 + max(map(abs, list(E) + list(mu)))) * beta
    mag = sum(abs(u) for u in A) ** 2 * beta * (1 + min(1e3, max(-x, abs(x)) if mu[0] > mu[1] else 0)) * (1 if mu[0] > mu[1] else np.exp(-min(abs(x), 700)) * (1 + abs(x)))
    ctx.check(abs(s - v) <= 10 * tol(mu) + 1e2 * cond / gap * mag * (1 if k == 1 else 1e4) + 1e-9 * abs(v),
              "depends on energy differences only", got=s, want=v)
    # mirror: energies -> -energies exchanges the roles of particles and holes
    s = call(name, A, [-e for e in E], box((-mu[1], -mu[0])), beta)
    ctx.check(abs(s - v) <= 10 * tol(mu) + 1e-9 * abs(v), "mirror image of the energies", got=s, want=v)
    # order of the levels is immaterial
    if k > 1:
        p = list(range(k))
        r.shuffle(p)
        s = call(name, [A[q] for q in p], [E[q] for q in p], box(mu), beta)
        ctx.check(abs(s - v) <= 10 * tol(mu) + 1e-9 * abs(v), "order of the levels is immaterial", got=s, want=v)
        # a level without amplitude does not contribute
        if name == "Gamma2":
            s = call(name, [A[0], 0.], E, box(mu), beta)
            u = call("Gamma1", A[:1], E[:1], box(mu), beta)
            ctx.check(abs(s - u) <= 1e-10 * abs(u) + 1e-300, "a level without amplitude does not contribute", got=s, want=u)
    # temperature scaling
    lam = r.choice([2., .25])
    s = call(name, A, [lam * e for e in E], box((lam * mu[0], lam * mu[1])), beta / lam)
    ctx.check(abs(s * lam - v) <= 10 * tol(mu) + 1e-9 * abs(v), "scales as an inverse energy", got=s * lam, want=v)
    ctx.count("integrals", 6)
    ctx.nontrivial(ctx.seed)


chk.main()
