"""C30: the display shows every eigenstate with its true occupation."""
import contextlib
import io
import re

import numpy as np

import edp
import ref
from vlib import Check

chk = Check("C30", needs=("psparse",), omp=1,
            rule="Occupation patterns of up to sixteen sites (all of them for few sites), in the integer types the library uses; "
                 "eigenspaces of either symmetry built by the library (complete, truncated, screened, degenerate, in any order of the "
                 "sectors) or filled by hand; the printed text is parsed back and every entry is matched one to one with the "
                 "eigenpairs, its amplitudes with the occupation patterns of the reference's basis. The drawing of the spectrum is "
                 "recorded by a stand-in for the axes. Non-trivial: distinct eigenspace with at least two listed states.",
            assumptions=["output is captured from standard output"],
            require={"patterns": 1, "entries": 1, "charge_only": 1, "spin_resolved": 1, "levels_drawn": 1})

UP, DW = u"↑", u"↓"


def draw(u, d, n):
    out = []
    for i in range(n):
        a, b = u >> i & 1, d >> i & 1
        out.append((UP if a else "") + (DW if b else "") or "o")
    return "|" + ",".join(out) + ">"


def ints(r):
    return r.choice([int, np.uint32, np.int64, np.int32])


@chk.family("pattern", quick=80, thorough=9000)
def pattern(ctx):
    from edpyt.eshow import fock
    r = ctx.rng
    n = 1 + ctx.idx % 4 if ctx.idx < 16 else r.choice([2, 5, 6, 8, 10, 12, 16])
    if n <= 4:
        pairs = [(u, d) for u in range(1 << n) for d in range(1 << n)]
    else:
        pairs = [(r.randrange(1 << n), r.randrange(1 << n)) for _ in range(60)]
        pairs += [(0, 0), ((1 << n) - 1,) * 2, (1, 1 << n - 1), (1 << n - 1, 1), (0, (1 << n) - 1)]
    t = ints(r)
    for u, d in pairs:
        got = fock(t(u), t(d), n)
        ctx.eq(got, draw(u, d, n), "pattern of up %s, down %s on %d sites" % (bin(u), bin(d), n))
        ctx.count("patterns")
    ctx.nontrivial(n, t.__name__, pairs[len(pairs) // 2])


ENTRY = re.compile(r"^\((?P<q>[^)]*)\)\s*:\s*(?P<e>\S+)\s*$")
TERM = re.compile(r"^(?P<a>[^|]*)(?P<s>\|.*>)$")


def parse(ctx, text):
    out = []
    lines = [l for l in text.split("\n") if l.strip()]
    ctx.check(len(lines) % 2 == 0, "every entry is a head and a state", text=text[:500])
    for h, b in zip(lines[::2], lines[1::2]):
        m = ENTRY.match(h)
        ctx.check(m is not None, "head of an entry: quantum numbers and energy", line=h)
        q = tuple(int(x) for x in m.group("q").split(",") if x.strip())
        amp = {}
        for term in b.split(" + "):
            k = TERM.match(term.strip())
            ctx.check(k is not None, "a term is an amplitude and a pattern", term=term)
            ctx.check(k.group("s") not in amp, "a pattern is listed once per eigenstate", pattern=k.group("s"), line=b[:300])
            amp[k.group("s")] = k.group("a").strip()
        out.append((q, m.group("e"), amp))
    return out


def patterns(n, q):
    m = (1 << n) - 1
    st = ref.sector_basis(n, *q) if len(q) == 2 else ref.charge_basis(n, q[0])
    return [draw(int(s) & m, int(s) >> n, n) for s in st]


def verify(ctx, espace, n):
    from edpyt.eshow import eprint
    frz = edp.Frozen(**{"%s%s" % (a, q): getattr(s, a) for q, s in espace.items() for a in ("eigvals", "eigvecs")})
    keys = list(espace)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        eprint(espace, n)
    frz.verify(ctx)
    ctx.check(list(espace) == keys, "the eigenspace is left alone")
    ent = parse(ctx, buf.getvalue())
    total = sum(s.eigvals.size for s in espace.values())
    ctx.eq(len(ent), total, "every eigenstate is listed once")
    pool = {q: [(float(e), np.array(v)) for e, v in zip(s.eigvals, s.eigvecs.T)] for q, s in espace.items()}
    pats = {q: patterns(n, q) for q in espace}
    prev = -1e300
    for q, e, amp in ent:
        ctx.check(q in pool and pool[q], "the entry belongs to a sector with unlisted eigenstates", sector=q)
        ctx.check(set(amp) == set(pats[q]), "the superposition runs over the basis of the sector", sector=q,
                  missing=sorted(set(pats[q]) - set(amp))[:5], unknown=sorted(set(amp) - set(pats[q]))[:5])
        a = np.array([float(amp[p]) for p in pats[q]])
        ctx.check(all(len(amp[p].split("e")[0].split(".")[-1]) <= 3 for p in pats[q]), "three decimals", amplitudes=list(amp.values())[:6])
        E = float(e)
        hit = [k for k, (x, v) in enumerate(pool[q]) if abs(x - E) <= 5.1e-4 * abs(x) + 1e-300 and np.all(np.abs(v - a) <= 5.001e-4)]
        ctx.check(hit, "energy and amplitudes belong to an eigenstate of the sector that was not listed yet", sector=q, energy=e,
                  amplitudes=a, candidates=[x for x, _ in pool[q]][:8])
        # equal entries are interchangeable: take the lowest
        k = min(hit, key=lambda i: pool[q][i][0])
        x, _ = pool[q].pop(k)
        ctx.check(prev == -1e300 or x >= prev - (2e-3 * max(abs(x), abs(prev)) if len(hit) > 1 else 0.) - 1e-12, "energies ascend", energy=x, previous=prev)
        prev = max(prev, x)
        ctx.count("entries")
    return total


def pdraw(ctx, espace):
    from edpyt.eshow import pdisplay

    class Axes(object):
        calls = []

        def hlines(self, y, xmin, xmax, **kw):
            self.calls.append((np.ravel(y), np.ravel(xmin), np.ravel(xmax)))
    ax = Axes()
    ax.calls = []
    pdisplay(espace, ax)
    got = []
    for y, a, b in ax.calls:
        ctx.check(y.size == a.size == b.size, "one segment per level")
        ctx.check(bool(np.all(b > a)), "segments have a width")
        c = (a + b) / 2
        ctx.check(np.allclose(c, np.rint(c)) and bool(np.all(b - a < 1)), "segments are centred on their charge and do not touch the next")
        got += [(int(round(k)), float(e)) for k, e in zip(c, y)]
    want = sorted((sum(q), float(e)) for q, s in espace.items() for e in s.eigvals)
    ctx.check(sorted(got) == want, "every level is drawn once above its charge", got=sorted(got)[:10], want=want[:10])
    ctx.count("levels_drawn", len(got))


def shuffle(r, espace):
    q = list(espace)
    r.shuffle(q)
    return {k: espace[k] for k in q}


@chk.family("built", quick=120, thorough=9000)
def built(ctx):
    """Eigenspaces of the library."""
    from edpyt.espace import build_espace, screen_espace
    r, rs = ctx.rng, ctx.np
    n = r.choice([1, 2, 2, 3, 3] if ctx.thorough else [1, 2, 2, 3])
    charge = r.random() < .5
    H = ref.rand_H(rs, n, spin=r.random() < .3) * r.choice([1., 1., 1e-5, 1e4])
    V = ref.rand_V(rs, n)
    with edp.settings(**edp.rand_settings(rs, n)):
        espace, egs = build_espace(H, V, symmetry="N" if charge else "sz")
    k = r.choice(["full", "screen", "few", "drop"])
    if k == "screen":
        screen_espace(espace, egs, r.choice([.5, 3.]), 1e-3)
    elif k == "few":
        for s in espace.values():
            m = r.randint(1, s.eigvals.size)
            s.eigvals, s.eigvecs = s.eigvals[:m], s.eigvecs[:, :m]
    elif k == "drop":
        for q in r.sample(list(espace), r.randrange(len(espace))):
            espace.pop(q)
    if r.random() < .5:
        espace = shuffle(r, espace)
    if r.random() < .3:
        for s in espace.values():
            s.eigvecs = np.ascontiguousarray(s.eigvecs) if r.random() < .5 else np.asfortranarray(s.eigvecs)
    ctx.note(n=n, H=H, V=V, charge=charge, kept=k)
    t = verify(ctx, espace, n)
    pdraw(ctx, espace)
    ctx.count("charge_only" if charge else "spin_resolved")
    if t > 1:
        ctx.nontrivial(n, charge, k, float(espace[next(iter(espace))].eigvals[0]))


@chk.family("filled", quick=100, thorough=7000)
def filled(ctx):
    """Sectors of more sites with hand-made levels: ties across sectors, signs, rounding at the half of the last digit."""
    from edpyt.espace import build_empty_sector
    r, rs = ctx.rng, ctx.np
    n = r.choice([2, 3, 4, 5, 6])
    charge = r.random() < .5
    espace = {}
    for _ in range(r.randint(1, 4)):
        q = (r.randint(0, 2 * n),) if charge else (r.randint(0, n), r.randint(0, n))
        s = build_empty_sector(n, *q)
        if s.d > 300:
            continue
        m = r.randint(1, min(s.d, 3))
        s.eigvals = np.sort(rs.choice([0., 1., -1., 2.5, 1e-12, -3e5, rs.normal()], m))
        v = rs.normal(size=(s.d, m))
        v /= np.linalg.norm(v, axis=0)
        k = r.random()
        if k < .3:
            v = np.rint(v * 1000) / 1000 * (rs.rand(s.d, m) < .6)
        elif k < .5:
            v = np.zeros((s.d, m))
            v[rs.randint(s.d, size=m), np.arange(m)] = 1.
        s.eigvecs = v
        espace[q] = s
    if not espace:
        return
    ctx.note(n=n, charge=charge, sectors=list(espace))
    t = verify(ctx, espace, n)
    pdraw(ctx, espace)
    ctx.count("charge_only" if charge else "spin_resolved")
    if t > 1:
        ctx.nontrivial(n, charge, tuple(espace), float(next(iter(espace.values())).eigvals[0]))


chk.main()
