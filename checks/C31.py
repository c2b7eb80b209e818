"""C31: drawings of orbitals and spin densities show the quantities they are given."""
import sys
import types

import numpy as np

import edp
import ref
from vlib import Check

chk = Check("C31", needs=("psparse",), omp=1,
            rule="Molecules of carbon and hydrogen in general positions (chains, branches, rings, fragments without a bond, atoms in any "
                 "order) seen along any pair of axes, all atoms or a selection in any order; orbitals with positive, negative, zero and "
                 "widely different amplitudes; eigenvectors of the library in any sector and layout. A stand-in for the axes records every "
                 "line and circle, which are matched one to one with the bonds, positions, amplitudes and occupations computed "
                 "independently. Non-trivial: distinct drawing of at least two sites with a bond.",
            assumptions=["ase and matplotlib are not installed: stand-ins supply atoms and neighbour lists and record the drawing"],
            require={"bonds_drawn": 1, "orbital_circles": 1, "density_circles": 1, "selections": 1, "rejected": 1})


class Circle(object):
    def __init__(self, xy, radius=5, **kw):
        self.xy, self.r, self.kw = np.array(xy, float), float(radius), kw
        self.color = kw.get("color", kw.get("facecolor", kw.get("fc")))


class Axes(object):
    """Records what is drawn."""
    made = []

    def __init__(self):
        self.lines, self.circles = [], []
        Axes.made.append(self)

    def __bool__(self):
        return True

    def plot(self, x, y, *a, **kw):
        x, y = np.asarray(x, float), np.asarray(y, float)
        if x.ndim == 1:
            x, y = x[:, None], y[:, None]
        for k in range(x.shape[1]):
            p = np.stack([x[:, k], y[:, k]], 1)
            cut = np.nonzero(np.isnan(p).any(1))[0]
            for s in np.split(p, cut):
                s = s[~np.isnan(s).any(1)]
                for u, v in zip(s[:-1], s[1:]):
                    self.lines.append((tuple(u), tuple(v)))
        return [self]

    def add_artist(self, art):
        self.circles.append(art)
        return art

    add_patch = add_artist

    def axis(self, *a, **kw):
        pass

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return lambda *a, **kw: None


def stand_in():
    """pyplot with figures and circles that can be inspected."""
    import matplotlib
    from matplotlib import pyplot as plt
    plt.Circle = Circle
    sys.modules["matplotlib.patches"].Circle = Circle
    plt.subplots = lambda *a, **kw: (types.SimpleNamespace(), Axes())
    import edpyt.cotools as ct
    return ct


def molecule(ctx):
    """Atoms with known bonds: carbons 1.4 apart, hydrogens 1.1 from theirs, all else beyond reach."""
    from ase import Atoms
    r, rs = ctx.rng, ctx.np
    reach = {"CC": 2 * .76 + .6, "CH": .76 + .31 + .6, "HH": .62 + .6}

    def far(p, q, s, t):
        return np.linalg.norm(np.subtract(p, q)) > reach["".join(sorted(s + t))] + .05
    nat = r.choice([1, 2, 3, 4, 5, 6, 8, 11])
    pos, sym, bonds = [np.zeros(3)], ["C"], []
    tries = 0
    while len(pos) < nat and tries < 4000:
        tries += 1
        s = "C" if r.random() < .75 else "H"
        k = r.randrange(len(pos))
        lone = r.random() < .1
        if sym[k] == "H" and not lone:
            continue
        d = rs.normal(size=3)
        d *= (rs.uniform(3.5, 6.) if lone else rs.uniform(1.3, 1.6) if s == "C" else rs.uniform(1., 1.15)) / np.linalg.norm(d)
        p = pos[k] + d
        if all(far(p, q, s, t) for m, (q, t) in enumerate(zip(pos, sym)) if lone or m != k):
            if not lone:
                bonds.append((k, len(pos)))
            pos.append(p)
            sym.append(s)
    if r.random() < .3:                                    # a ring of carbons beside it
        m = r.choice([3, 4, 5, 6])
        # 1.7 apart: nearest neighbours only are within reach for rings of four and more
        R = (1.7 if m > 3 else 1.5) / (2 * np.sin(np.pi / m))
        o = len(pos)
        c = np.max(pos, axis=0) + 8.
        q, _ = np.linalg.qr(rs.normal(size=(3, 3)))
        for i in range(m):
            pos.append(c + q[:, :2].dot([R * np.cos(2 * np.pi * i / m), R * np.sin(2 * np.pi * i / m)]))
            sym.append("C")
            bonds.append((o + i, o + (i + 1) % m))
    n = len(pos)
    perm = rs.permutation(n)                               # new label -> old label
    inv = np.argsort(perm)
    atoms = Atoms([sym[i] for i in perm], np.array(pos)[perm] + rs.normal(size=3))
    return atoms, sorted(tuple(sorted((int(inv[i]), int(inv[j])))) for i, j in bonds)


def plane(ctx):
    return ctx.rng.choice(["xy", "yz", "zx", "yx", "xz", "zy"])


def skeleton(ctx, ax, atoms, bonds, pl):
    P = atoms.positions[:, ["xyz".index(k) for k in pl]]
    left = list(bonds)
    for u, v in ax.lines:
        hit = [b for b in left if all(np.allclose(P[i], w, rtol=0, atol=1e-9) for i, w in zip(b, (u, v)))
               or all(np.allclose(P[i], w, rtol=0, atol=1e-9) for i, w in zip(b, (v, u)))]
        ctx.check(hit, "every line joins two bonded atoms (once)", line=(u, v), bonds=bonds, positions=P)
        left.remove(hit[0])
        ctx.count("bonds_drawn")
    ctx.check(not left, "every bond is drawn", missing=left, bonds=bonds)


def circles(ctx, ax, want, what):
    """want: list of (position, radius, admissible colours)."""
    got = list(ax.circles)
    ctx.eq(len(got), len(want), "number of circles")
    for p, rad, col in want:
        hit = [c for c in got if np.allclose(c.xy, p, rtol=0, atol=1e-9) and abs(c.r - rad) <= 1e-9 * max(1., abs(rad)) and c.color in col]
        ctx.check(hit, "a circle of the right size and colour at the site", position=p, radius=rad, colours=col,
                  there=[(list(c.xy), c.r, c.color) for c in got if np.allclose(c.xy, p, rtol=0, atol=1e-9)])
        got.remove(hit[0])
        ctx.count(what)


def select(ctx, nat):
    """(argument, indices) of a selection of atoms."""
    r = ctx.rng
    k = r.choice(["none", "slice", "list", "array", "mask", "negative"])
    if k == "none":
        return None, np.arange(nat)
    ctx.count("selections")
    m = r.randint(1, nat)
    idx = np.array(r.sample(range(nat), m))
    if k == "slice":
        a = r.randrange(nat)
        s = slice(a, None, r.choice([1, 1, 2])) if r.random() < .6 else slice(None, None, -1)
        return s, np.arange(nat)[s]
    if k == "list":
        return [int(i) for i in idx], idx
    if k == "array":
        return idx, idx
    if k == "negative":
        return [int(i) - nat for i in idx], idx
    mask = np.zeros(nat, bool)
    mask[idx] = True
    return mask, np.nonzero(mask)[0]


def axes(ctx):
    return Axes() if ctx.rng.random() < .7 else None


def finish(ctx, given, got, made):
    ctx.check(isinstance(got, Axes), "the axes are returned")
    if given is not None:
        ctx.check(got is given, "the given axes are drawn on and returned")
        ctx.eq(len(Axes.made), made, "no other figure is opened")


@chk.family("skeleton", quick=60, thorough=6000)
def bare(ctx):
    ct = stand_in()
    Axes.made = []
    atoms, bonds = molecule(ctx)
    pl, ax = plane(ctx), axes(ctx)
    P = atoms.positions.copy()
    ctx.note(positions=P, symbols=atoms.symbols, bonds=bonds, plane=pl)
    got = ct.draw_skeleton(atoms, ax, pl)
    finish(ctx, ax, got, 1)
    skeleton(ctx, got, atoms, bonds, pl)
    ctx.eq(len(got.circles), 0, "the bare skeleton has no circles")
    ctx.same(atoms.positions, P, "the atoms stay where they are")
    if bonds:
        ctx.nontrivial(P[0, 0], pl)


@chk.family("orbital", quick=100, thorough=9000)
def orbital(ctx):
    ct = stand_in()
    Axes.made = []
    r, rs = ctx.rng, ctx.np
    atoms, bonds = molecule(ctx)
    sub, idx = select(ctx, len(atoms))
    pl, ax = plane(ctx), axes(ctx)
    v = rs.normal(size=len(idx)) * r.choice([1., 1., 1e-3, 30.])
    if r.random() < .4:
        v *= 10. ** rs.uniform(-6, 0, v.size)
    if r.random() < .3:
        v[rs.randint(v.size)] = 0.
    kw = {} if r.random() < .4 else {"scale": r.choice([1, 3, .25, 12.5])}
    ctx.note(positions=atoms.positions.copy(), v=v, subset=sub, plane=pl, **kw)
    P = atoms.positions.copy()
    fz = edp.Frozen(v=v, positions=atoms.positions)
    for turn in range(2):
        a = ax if turn == 0 else Axes()
        Axes.made = [a] if a is not None else []
        got = ct.draw_feynman_dyson_orbital(atoms, v, sub, a, pl, **kw)
        finish(ctx, a, got, 1)
        fz.verify(ctx)
        skeleton(ctx, got, atoms, bonds, pl)
        Q = P[:, ["xyz".index(k) for k in pl]]
        s = kw.get("scale", 3)
        circles(ctx, got, [(Q[i], s * x * x, ("r",) if x > 0 else ("b",) if x < 0 else ("r", "b")) for i, x in zip(idx, v)], "orbital_circles")
    for bad in (np.append(v, 1.), v[:-1]):
        ctx.raises(Exception, lambda: ct.draw_feynman_dyson_orbital(atoms, bad, sub, Axes(), pl, **kw), "an orbital of another size is rejected")
        ctx.count("rejected")
    if bonds and len(idx) > 1:
        ctx.nontrivial(P[0, 0], float(v[0]), repr(sub), pl)


@chk.family("density", quick=120, thorough=9000)
def density(ctx):
    from edpyt.espace import build_espace
    ct = stand_in()
    Axes.made = []
    r, rs = ctx.rng, ctx.np
    atoms, bonds = molecule(ctx)
    nat = len(atoms)
    for _ in range(20):
        sub, idx = select(ctx, nat)
        if len(idx) <= 4:
            break
    else:
        idx = np.array(r.sample(range(nat), 3))
        sub = [int(i) for i in idx]
    n = len(idx)
    H, V = ref.rand_H(rs, n, spin=r.random() < .5), ref.rand_V(rs, n)
    with edp.settings(**edp.rand_settings(rs, n)):
        espace, egs = build_espace(H, V)
    pl = plane(ctx)
    P = atoms.positions.copy()
    Q = P[:, ["xyz".index(k) for k in pl]]
    for q in r.sample(list(espace), min(4, len(espace))):
        s = espace[q]
        k = r.randrange(s.eigvals.size)
        B = np.array(s.eigvecs)
        lay = r.choice(["own", "column", "matrix", "copy", "C", "F"])
        evec = s.eigvecs[:, k]
        if lay == "column":
            evec = s.eigvecs[:, k:k + 1]
        elif lay == "matrix":
            evec = np.ascontiguousarray(s.eigvecs[:, k:k + 1])
        elif lay == "copy":
            evec = evec.copy()
        elif lay == "C":
            evec = np.ascontiguousarray(s.eigvecs)[:, k]
        elif lay == "F":
            evec = np.asfortranarray(s.eigvecs)[:, k]
        fz = edp.Frozen(evec=evec, eigvecs=s.eigvecs, up=s.states.up, dw=s.states.dw, positions=atoms.positions)
        ctx.note(positions=P, subset=sub, plane=pl, sector=q, state=k, layout=lay, H=H, V=V)
        a = axes(ctx)
        Axes.made = [a] if a is not None else []
        got = ct.draw_spin_density(atoms, evec, s.states, n, sub, a, pl)
        finish(ctx, a, got, 1)
        fz.verify(ctx)
        skeleton(ctx, got, atoms, bonds, pl)
        basis, w = ref.sector_basis(n, *q), np.abs(B[:, k]) ** 2
        up = [sum(x for b, x in zip(basis, w) if int(b) >> i & 1) for i in range(n)]
        dw = [sum(x for b, x in zip(basis, w) if int(b) >> (n + i) & 1) for i in range(n)]
        circles(ctx, got, [(Q[i], x, ("black",)) for i, x in zip(idx, up)] + [(Q[i], x, ("gray",)) for i, x in zip(idx, dw)], "density_circles")
        ctx.raises(Exception, lambda: ct.draw_spin_density(atoms, evec, s.states, n, np.arange(nat)[np.append(idx, idx[0])], Axes(), pl),
                   "a selection of another size is rejected")
        ctx.count("rejected")
        if bonds and n > 1:
            ctx.nontrivial(P[0, 0], q, k, lay)


chk.main()
