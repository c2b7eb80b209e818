"""Neighbour lists of molecules, with ase's conventions and defaults."""
import numpy as np

RADIUS = {"H": .31, "C": .76, "N": .71, "O": .66}


def natural_cutoffs(atoms, mult=1., **kw):
    return [mult * RADIUS[s] for s in atoms.symbols]


class NeighborList(object):
    """Pairs closer than the sum of their cut-offs and two skins.  As in ase each atom is, by default, its own
    neighbour, and a pair is listed with its lower member only."""

    def __init__(self, cutoffs, skin=.3, sorted=False, self_interaction=True, bothways=False, **kw):
        self.cut = np.asarray(cutoffs) + skin
        self.si, self.bw = self_interaction, bothways

    def update(self, atoms):
        self.pos = np.array(atoms.positions)
        return True

    def get_neighbors(self, a):
        d = np.linalg.norm(self.pos - self.pos[a], axis=1)
        hit = d < self.cut + self.cut[a]
        if not self.bw:
            hit[:a] = False
        hit[a] = self.si
        i = np.nonzero(hit)[0]
        i = np.roll(i, len(i) // 2)                       # the order is not specified
        return i, np.zeros((len(i), 3), int)


def build_neighbor_list(atoms, cutoffs=None, **kw):
    nl = NeighborList(natural_cutoffs(atoms) if cutoffs is None else cutoffs, **kw)
    nl.update(atoms)
    return nl


def neighbor_list(quantities, a, cutoff, self_interaction=False):
    if not isinstance(cutoff, (list, tuple, np.ndarray)):
        cutoff = [cutoff / 2.] * len(a)
    nl = NeighborList(cutoff, skin=0., self_interaction=self_interaction, bothways=True)
    nl.update(a)
    ij = [(i, j) for i in range(len(a)) for j in sorted(nl.get_neighbors(i)[0])]
    i, j = (np.array([p[k] for p in ij], int) for k in (0, 1))
    D = a.positions[j] - a.positions[i]
    val = {"i": i, "j": j, "D": D, "d": np.linalg.norm(D, axis=1), "S": np.zeros((len(i), 3), int)}
    out = tuple(val[q] for q in quantities)
    return out if len(out) > 1 else out[0]
