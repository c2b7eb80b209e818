"""Stand-in for the parts of ase the plotting module touches (ase is not installed here)."""
import numpy as np


class Atom(object):
    def __init__(self, atoms, index):
        self.index = int(index)
        self.symbol = atoms.symbols[index]
        self.position = atoms.positions[index]

    x = property(lambda self: self.position[0])
    y = property(lambda self: self.position[1])
    z = property(lambda self: self.position[2])


class Atoms(object):
    """Symbols and positions; indexing by an integer gives an Atom, by anything else Atoms."""

    def __init__(self, symbols, positions):
        self.symbols = list(symbols)
        self.positions = np.array(positions, float).reshape(-1, 3)

    def get_positions(self):
        return self.positions.copy()

    def get_chemical_symbols(self):
        return list(self.symbols)

    def __len__(self):
        return len(self.symbols)

    def __iter__(self):
        return (Atom(self, i) for i in range(len(self)))

    def copy(self):
        return Atoms(self.symbols, self.positions)

    def __getitem__(self, i):
        if isinstance(i, (int, np.integer)):
            if not -len(self) <= i < len(self):
                raise IndexError("index out of range")
            return Atom(self, i % len(self))
        k = np.arange(len(self))[i if not isinstance(i, (list, tuple)) or len(i) else np.zeros(0, int)]
        return Atoms([self.symbols[j] for j in k], self.positions[k])
