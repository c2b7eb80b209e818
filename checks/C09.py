"""C09: thermal screening and adaptive state counts follow their rules."""
import math

import numpy as np

import edp
import ref
from vlib import Check

chk = Check("C09", needs=("psparse",), omp=2,
            rule="Synthetic spectra (degenerate, gapped, energies placed just above/below the cutoff, unordered) and real "
                 "solve-screen-adjust histories; every eigenvector carries a tag of its eigenvalue so that a mispaired "
                 "column shows. Non-trivial: at least one state is dropped and one kept.",
            assumptions=["energies within 1e-9 (relative) of the cutoff are not judged",
                         "state counts are at least one where adjusted"])


def sector(e, rs, n=2, q=(1, 1), charge=False):
    """Sector whose eigenvector k carries its index and eigenvalue."""
    from edpyt.espace import build_empty_sector
    sct = build_empty_sector(n, sum(q)) if charge else build_empty_sector(n, *q)
    d = len(e) + rs.randint(0, 3)
    v = rs.normal(size=(d + 2, len(e)))
    v[0], v[1] = np.arange(len(e)), e
    sct.eigvals, sct.eigvecs = np.array(e), v
    return sct


@chk.family("screen", quick=3000, thorough=30000)
def screen(ctx):
    from edpyt.espace import screen_espace
    r, rs = ctx.rng, ctx.np
    beta = r.choice([1e-3, .5, 1., 10., 200., 1e3, 1e6])
    cutoff = r.choice([1e-9, 1e-9, 1e-3, .5, .9, 1e-30, 1e-300])
    default = r.random() < .3
    if default:
        beta, cutoff = 1e6, 1e-9
    egs = r.choice([0., -3.7, 12.5, -1e3])
    win = -math.log(cutoff) / beta                       # energies below egs + win survive
    es, kept, dropped = {}, 0, 0
    n = r.randint(1, 4)
    keys = [(u, d) for u in range(n + 1) for d in range(n + 1)]
    keys = sorted(r.sample(keys, r.randint(1, len(keys))))
    gs = r.choice(keys)
    tol = 1e-7 * win + 1e-12 * abs(egs) + 1e-13
    for q in keys:
        e = []
        for _ in range(r.choice([1, 1, 2, 5, 9])):
            k = r.choice(["in", "in", "out", "edge", "far", "zero", "dup"])
            x = {"in": r.random() * win * .9, "out": win * (1.1 + r.random()), "far": win * 50 + 1.,
                 "edge": win + (tol * 3 if r.random() < .5 else -tol * 3), "zero": 0.,
                 "dup": e[-1] - egs if e else r.random() * win}[k]
            x = max(x, 0.)
            e.append(egs + x)
        if q == gs:
            e[0] = egs
        if r.random() < .6:
            e.sort()
        if q != gs and r.random() < .25:
            e = [egs + win * 3 + 1. + abs(x) for x in e]
        es[q] = sector(e, rs)
    orig = {q: (s, s.eigvals, s.eigvecs, s.eigvals.copy(), s.eigvecs.copy()) for q, s in es.items()}
    ctx.note(beta=beta, cutoff=cutoff, egs=egs, default=default, energies={str(q): o[3] for q, o in orig.items()})
    if default:
        screen_espace(es, egs)
    else:
        screen_espace(es, egs, beta=beta, cutoff=cutoff)
    want = []
    for q, (s, e_, v_, e, v) in orig.items():
        # judged in the logarithm, away from rounding of the exponential
        x = beta * (e - egs) + math.log(cutoff)
        sure, amb = x < 0, np.abs(x) < 1e-9 * (1 + abs(math.log(cutoff))) + beta * 4e-16 * abs(egs)
        if amb.any():
            ctx.count("ambiguous")
            return
        kept += int(sure.sum())
        dropped += int((~sure).sum())
        ctx.check(np.array_equal(e_, e) and np.array_equal(v_, v), "the arrays handed over are left alone")
        if sure.any():
            want.append(q)
            ctx.check(q in es, "sector %s keeps its relevant states" % (q,))
            ctx.check(es[q] is s, "the sector object is kept")
            ctx.same(s.eigvals, e[sure], "kept eigenvalues of %s" % (q,))
            ctx.same(s.eigvecs, v[:, sure], "kept eigenvectors of %s stay paired" % (q,))
    ctx.eq(list(es.keys()), want, "surviving sectors")
    ctx.check(gs in es, "the ground state survives")
    before = {q: (s.eigvals.copy(), s.eigvecs.copy()) for q, s in es.items()}
    screen_espace(es, egs, beta=beta, cutoff=cutoff)
    ctx.eq(list(es), list(before), "screening twice changes nothing")
    for q in es:
        ctx.same(es[q].eigvals, before[q][0], "screening twice changes nothing")
        ctx.same(es[q].eigvecs, before[q][1], "screening twice changes nothing")
    ctx.count("states_kept", kept)
    ctx.count("states_dropped", dropped)
    if kept and dropped:
        ctx.nontrivial(beta, cutoff, kept, dropped, ctx.seed)
    ctx.sample(beta=beta, cutoff=cutoff, kept=kept, dropped=dropped)


def rule(n, neig, sizes):
    """Expected counts. sizes: {(nup, ndw): surviving states}."""
    out = neig.copy()
    for u in range(n + 1):
        for d in range(n + 1):
            k = u * (n + 1) + d
            dim = math.comb(n, u) * math.comb(n, d)
            s = sizes.get((u, d), 0)
            if s == neig[k]:
                out[k] = min(dim, neig[k] + 1)
            elif s < neig[k]:
                out[k] = max(1, neig[k] - 1)
    return out


@chk.family("adjust", quick=2500, thorough=20000)
def adjust(ctx):
    from edpyt.espace import adjust_neigsector
    from edpyt.lookup import get_sector_index
    r, rs = ctx.rng, ctx.np
    n = r.choice([1, 2, 3, 4, 6])
    keys = [(u, d) for u in range(n + 1) for d in range(n + 1)]
    p = r.choice([0., .1, .5, .9, 1.])
    for q in keys:
        ctx.check(int(get_sector_index(n, *q)) == q[0] * (n + 1) + q[1], "index of sector %s" % (q,))
    dims = np.array([math.comb(n, u) * math.comb(n, d) for u, d in keys])
    neig = np.array([r.choice([1, d, r.randint(1, d), min(d, 2), d]) for d in dims])
    es, sizes = {}, {}
    for k, q in enumerate(keys):
        if r.random() < p:
            s = r.choice([neig[k], neig[k], r.randint(1, neig[k]), 1])
            es[q] = sector(np.sort(rs.normal(size=s)), rs)
            sizes[q] = s
    ctx.note(n=n, neig=neig.copy(), sizes={str(k): v for k, v in sizes.items()})
    want = rule(n, neig, sizes)
    before = {q: s.eigvals.copy() for q, s in es.items()}
    arr = neig.copy()
    adjust_neigsector(es, arr, n)
    ctx.same(arr, want, "adjusted state counts")
    ctx.eq(list(es), list(before), "the space is left alone")
    for q in es:
        ctx.same(es[q].eigvals, before[q], "the space is left alone")
    ctx.count("counts_raised", int((want > neig).sum()))
    ctx.count("counts_lowered", int((want < neig).sum()))
    ctx.count("counts_kept", int((want == neig).sum()))
    if (want != neig).any():
        ctx.nontrivial(n, len(es), ctx.seed)
    ctx.sample(n=n, neig=neig, sizes={str(k): v for k, v in sizes.items()}, adjusted=arr)


@chk.family("history", quick=60, thorough=700)
def history(ctx):
    """solve -> screen -> adjust -> solve ... with the state of the counts followed by a model."""
    from edpyt.espace import adjust_neigsector, build_espace, get_espace_dim, screen_espace
    r, rs = ctx.rng, ctx.np
    n = r.choice([1, 2, 3, 3] + ([4] if ctx.thorough else []))
    H, V = ref.rand_H(rs, n, spin=r.random() < .3), ref.rand_V(rs, n)
    cfg = edp.rand_settings(rs, n)
    ens = ref.Ensemble(H, V, n, **cfg)
    beta, cutoff = r.choice([.1, 1., 5., 50.]), r.choice([1e-9, 1e-4, 1e-2])
    neig = get_espace_dim(n, r.choice([1, 2, 3, None]))
    ctx.note(n=n, H=H, V=V, cfg=cfg, beta=beta, cutoff=cutoff)
    for it in range(r.randint(2, 6)):
        model = neig.copy()
        with edp.settings(**cfg):
            es, egs = build_espace(H, V, neig)
        ctx.close(egs, ens.egs, "ground-state energy in step %d" % it, atol=1e-9)
        screen_espace(es, egs, beta=beta, cutoff=cutoff)
        sizes = {}
        for q, (st, e, v) in ens.sec.items():
            k = q[0] * (n + 1) + q[1]
            x = beta * (e[:model[k]] - ens.egs) + math.log(cutoff)
            if (np.abs(x) < 1e-7 * (1 + beta)).any():
                ctx.count("ambiguous")
                return
            s = int((x < 0).sum())
            if s:
                sizes[q] = s
        ctx.eq({tuple(q): len(s.eigvals) for q, s in es.items()}, sizes, "states kept in step %d" % it)
        for q, s in es.items():
            st, e, v = ens.sec[q]
            A = ref.hamiltonian(H, V, st, n, **cfg)
            ctx.close(A.dot(s.eigvecs), s.eigvecs * s.eigvals, "kept pairs are eigenpairs", atol=1e-8, rtol=0)
        adjust_neigsector(es, neig, n)
        ctx.same(neig, rule(n, model, sizes), "state counts after step %d" % it)
        ctx.count("history_steps")
    ctx.nontrivial(n, beta, cutoff, ctx.seed)
    ctx.sample(n=n, beta=beta, cutoff=cutoff, steps=it + 1, counts=neig)


chk.main()
