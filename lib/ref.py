"""Independent reference model: second quantisation on full bit registers.

A Fock state of n sites is the integer  dw << n | up.  Operator strings are applied one
operator at a time with the sign (-1)^(occupied levels above the position); nothing here
uses the library under test.
"""
import itertools

import numpy as np


def basis(n, p):
    """All n-bit patterns with p bits, ascending (brute force)."""
    if n > 12:
        return sorted(sum(1 << k for k in c) for c in itertools.combinations(range(n), p))
    return [s for s in range(1 << n) if bin(s).count("1") == p]


def sector_basis(n, nup, ndw):
    up, dw = basis(n, nup), basis(n, ndw)
    return np.array([d << n | u for d in dw for u in up], dtype=np.int64)


def charge_basis(n, N):
    return np.array(basis(2 * n, N), dtype=np.int64)


def popcount_above(s, pos, nbits):
    t = s >> (pos + 1)
    c = np.zeros_like(t)
    while t.any():
        c += t & 1
        t = t >> 1
    return c


def apply(ops, states, nbits):
    """Apply an operator string, rightmost first: ops = [('+'|'-', pos), ...].

    Returns (sign, state); sign is 0 where the string annihilates the state."""
    s = np.array(states, dtype=np.int64)
    sg = np.ones(s.shape, dtype=np.int64)
    for kind, pos in reversed(ops):
        occ = (s >> pos) & 1
        ok = occ == (1 if kind == "-" else 0)
        sg = np.where(ok, sg * (1 - 2 * (popcount_above(s, pos, nbits) & 1)), 0)
        s = np.where(ok, s ^ (1 << pos), s)
    return sg, s


def matrix(terms, rows, cols, nbits):
    """<rows| sum_k coef_k ops_k |cols> as a dense matrix."""
    M = np.zeros((len(rows), len(cols)))
    order = np.argsort(rows)
    srt = rows[order]
    idx = np.arange(len(cols))
    for coef, ops in terms:
        sg, f = apply(ops, cols, nbits)
        k = np.searchsorted(srt, f)
        k = np.minimum(k, len(srt) - 1)
        hit = (sg != 0) & (srt[k] == f)
        np.add.at(M, (order[k[hit]], idx[hit]), coef * sg[hit])
    return M


def onebody_terms(H, n, mu=0., hop=True):
    H = np.asarray(H)
    H2 = H if H.ndim == 3 else np.array([H, H])
    t = []
    for s in range(2):
        for i in range(n):
            for j in range(n):
                if i == j:
                    e = H2[s, i, i] + mu
                    if e:
                        t.append((e, [("+", i + s * n), ("-", i + s * n)]))
                elif hop and abs(H2[s, i, j]) > 1e-7:
                    t.append((H2[s, i, j], [("+", i + s * n), ("-", j + s * n)]))
    return t


def exchange_terms(n, Jx=None, Jp=None):
    t = []
    for i in range(n):
        for j in range(n):
            if i == j:
                continue
            for s in range(2):
                if Jp is not None and Jp[i, j]:
                    q = 1 - s
                    t.append((0.5 * Jp[i, j], [("+", i + s * n), ("+", i + q * n), ("-", j + q * n), ("-", j + s * n)]))
                for q in range(2):
                    if Jx is not None and Jx[i, j]:
                        t.append((0.5 * Jx[i, j], [("+", i + s * n), ("+", j + q * n), ("-", i + q * n), ("-", j + s * n)]))
    return t


def density_diag(U, states, n, hfmode=False, z=None):
    """Diagonal of the density-density interaction."""
    states = np.asarray(states)
    z = np.full(n, 1. if hfmode else 0.) if z is None else np.asarray(z)
    up = np.array([(states >> i) & 1 for i in range(n)], float)
    dw = np.array([(states >> (i + n)) & 1 for i in range(n)], float)
    d = np.zeros(len(states))
    for i in range(n):
        if hfmode:
            d += U[i, i] * (up[i] - .5) * (dw[i] - .5)
        else:
            d += U[i, i] * up[i] * dw[i]
        for j in range(n):
            if i != j:
                d += .5 * U[i, j] * (up[i] + dw[i] - z[i]) * (up[j] + dw[j] - z[j])
    return d


def hamiltonian(H, V, states, n, hfmode=False, mu=0., z=None, hop=True):
    """Dense many-body Hamiltonian in the span of `states`."""
    if isinstance(V, dict):
        U, Jx, Jp = V.get("U"), V.get("Jx"), V.get("Jp")
    else:
        U, Jx, Jp = V, None, None
    M = matrix(onebody_terms(H, n, mu, hop) + exchange_terms(n, Jx, Jp), states, states, 2 * n)
    if U is not None:
        M[np.arange(len(states)), np.arange(len(states))] += density_diag(U, states, n, hfmode, z)
    return M


class Ensemble(object):
    """Complete thermal ensemble, sector by sector, from the reference Hamiltonian."""

    def __init__(self, H, V, n, **kw):
        self.n = n
        self.sec = {}
        for nup in range(n + 1):
            for ndw in range(n + 1):
                st = sector_basis(n, nup, ndw)
                e, v = np.linalg.eigh(hamiltonian(H, V, st, n, **kw))
                self.sec[nup, ndw] = (st, e, v)
        self.egs = min(e[0] for _, e, _ in self.sec.values())

    def Z(self, beta):
        return sum(np.exp(-beta * (e - self.egs)).sum() for _, e, _ in self.sec.values())

    def poles(self, beta, i, j, ispin=0, keep=None, part="both"):
        """Poles and residues of <<c_i; c+_j>>. keep: {(nup,ndw): indices of retained states}."""
        n = self.n
        P, R = [], []
        Z = 0.
        for (nup, ndw), (st, e, v) in self.sec.items():
            idx = np.arange(len(e)) if keep is None else keep.get((nup, ndw))
            if idx is None:
                continue
            w = np.exp(-beta * (e[idx] - self.egs))
            Z += w.sum()
            for kind in ("+", "-"):
                if part == "e" and kind == "-" or part == "h" and kind == "+":
                    continue
                d = 1 if kind == "+" else -1
                q = (nup + d, ndw) if ispin == 0 else (nup, ndw + d)
                if q not in self.sec:
                    continue
                st2, e2, v2 = self.sec[q]
                mi = v2.T.dot(matrix([(1., [(kind, i + ispin * n)])], st2, st, 2 * n)).dot(v[:, idx])
                mj = mi if i == j else v2.T.dot(matrix([(1., [(kind, j + ispin * n)])], st2, st, 2 * n)).dot(v[:, idx])
                P.append((d * (e2[:, None] - e[idx][None, :])).ravel())
                R.append((mi * mj * w[None, :]).ravel())
        if not P:
            return np.zeros(0), np.zeros(0)
        return np.concatenate(P), np.concatenate(R) / Z

    def occupation(self, beta):
        n = self.n
        nup, ndw, Z = np.zeros(n), np.zeros(n), 0.
        for st, e, v in self.sec.values():
            w = np.exp(-beta * (e - self.egs))
            Z += w.sum()
            pr = (v ** 2).dot(w)
            for k in range(n):
                nup[k] += (pr * ((st >> k) & 1)).sum()
                ndw[k] += (pr * ((st >> (k + n)) & 1)).sum()
        return nup / Z, ndw / Z


def lehmann(P, R, z):
    z = np.atleast_1d(z)
    if P.size == 0:
        return np.zeros(z.shape, complex)
    # merge poles to keep this cheap
    return (R[None, :] / (z[:, None] - P[None, :])).sum(1)


# ---------------------------------------------------------------- random inputs

def rand_H(rs, n, kind=None, spin=False, scale=1., close=0.):
    """Random real symmetric one-body matrix of various structures.

    With spin: the matrices of the two spins are independent, of different structure, mirror
    images, sign-changed copies or (with probability close) equal up to a tiny difference."""
    kinds = ["dense", "chain", "star", "sparse", "diag", "degenerate", "ring"]
    given = kind
    kind = kinds[rs.randint(len(kinds))] if kind is None else kind

    def one(kind=kind):
        H = np.zeros((n, n))
        if kind == "dense":
            H = rs.normal(size=(n, n))
        elif kind in ("chain", "ring"):
            for i in range(n - 1):
                H[i, i + 1] = rs.normal()
            if kind == "ring" and n > 2:
                H[0, n - 1] = rs.normal()
            H += np.diag(rs.normal(size=n))
        elif kind == "star":
            H[0, 1:] = rs.normal(size=n - 1)
            H += np.diag(rs.normal(size=n))
        elif kind == "sparse":
            H = rs.normal(size=(n, n)) * (rs.rand(n, n) < .4)
        elif kind == "diag":
            H = np.diag(rs.normal(size=n))
        elif kind == "degenerate":
            t = rs.choice([-1., .5, 1.])
            for i in range(n - 1):
                H[i, i + 1] = t
        H = np.triu(H) + np.triu(H, 1).T
        return H * scale
    if not spin:
        return one()
    a, how = one(), rs.rand()
    if rs.rand() < close:
        d = one() * rs.choice([1e-6, 1e-9, 0.])
        return np.array([a, a + d * (a != 0)])
    if how < .6:
        return np.array([a, one()])
    if how < .8 and given is None:
        return np.array([a, one(kinds[rs.randint(len(kinds))])])
    if how < .9:
        return np.array([a, a[::-1, ::-1]])
    return np.array([a, a - 2 * np.triu(a, 1) - 2 * np.tril(a, -1)])


def rand_V(rs, n, kind=None, sym=True):
    kinds = ["onsite", "full", "zero", "partial", "uniform", "negative"]
    kind = kinds[rs.randint(len(kinds))] if kind is None else kind
    if kind == "onsite":
        V = np.diag(rs.uniform(0, 4, n))
    elif kind == "full":
        V = rs.uniform(0, 3, (n, n))
    elif kind == "zero":
        V = np.zeros((n, n))
    elif kind == "partial":
        V = np.diag(rs.uniform(0, 4, n) * (rs.rand(n) < .5)) + rs.uniform(0, 2, (n, n)) * (rs.rand(n, n) < .3)
    elif kind == "uniform":
        V = np.eye(n) * rs.uniform(.5, 6)
    else:
        V = -np.diag(rs.uniform(0, 2, n)) + rs.normal(size=(n, n)) * .3
    if sym:
        V = np.triu(V) + np.triu(V, 1).T
    return np.ascontiguousarray(V)


def rand_J(rs, n, density=.7):
    J = rs.normal(size=(n, n)) * (rs.rand(n, n) < density)
    J = np.triu(J, 1)
    return np.ascontiguousarray(J + J.T)
