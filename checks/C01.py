"""C01: the sector bases enumerate Fock space; index and bit maps are mutually inverse."""
import numpy as np

import ref
from vlib import Check

chk = Check("C01", needs=("psparse",),
            rule="Exhaustive (sites, particles) grid up to a tier-dependent size plus large registers with few "
                 "particles/holes; random and adversarial absent patterns for look-ups; random sector/state indices "
                 "for the maps. A case is non-trivial if its basis has more than one state or its map more than one entry.",
            assumptions=["numba-compiled functions behave as their Python source (numba is not installed)"])


def comb(n, p):
    r = 1
    for k in range(p):
        r = r * (n - k) // (k + 1)
    return r


GRID_Q = [(n, p) for n in range(1, 13) for p in range(n + 1)]
GRID_T = [(n, p) for n in range(1, 17) for p in range(n + 1)]
BIG = [(n, p) for n in range(17, 33) for p in (0, 1, 2, 3, n - 2, n - 1, n) if comb(n, p) <= 5000]
BIG.sort(key=lambda q: q[0] != 32)          # the full register first


def check_basis(ctx, n, p):
    from edpyt.lookup import binsearch, count_bits
    from edpyt.sector import generate_states
    ctx.note(n=n, p=p)
    st = generate_states(n, p)
    d = comb(n, p)
    ctx.eq(int(st.size), d, "number of states")
    ctx.check(st.dtype == np.uint32, "the basis is an array of the library's unsigned type", dtype=str(st.dtype))
    py = [int(x) for x in st]
    for a, b in zip(py, py[1:]):
        if not a < b:
            ctx.fail("states not strictly ascending: %d then %d" % (a, b))
    for x in py:
        if bin(x).count("1") != p or x >> n:
            ctx.fail("state %s has the wrong particle number or leaves the register" % bin(x))
    # distinct + right particle number + right count = complete
    ctx.count("states", d)
    pick = range(d) if d <= 300 else sorted(ctx.rng.sample(range(d), 200)) + [0, d - 1]
    for k in pick:
        ctx.eq(int(binsearch(st, st[k])), k, "binsearch of state %d" % k)
        ctx.count("lookups_present")
        if not (k % 17):
            ctx.eq(int(count_bits(st[k], n)), p, "count_bits")
    s = set(py)
    probes = [0, (1 << n) - 1, py[0] - 1, py[-1] + 1] + [x + dlt for x in py[:5] for dlt in (-1, 1)]
    probes += [ctx.rng.randrange(1 << n) for _ in range(30)]
    for q in probes:
        if 0 <= q < 1 << 32 and q not in s:
            ctx.eq(int(binsearch(st, np.uint32(q))), -1, "binsearch of the absent pattern %s" % bin(q))
            ctx.count("lookups_absent")
    if d > 1:
        ctx.nontrivial(n, p)
    ctx.sample(n=n, p=p, dimension=d, first=py[:4])


@chk.family("basis", quick=len(GRID_Q), thorough=len(GRID_T))
def basis(ctx):
    check_basis(ctx, *(GRID_T if ctx.thorough else GRID_Q)[ctx.idx])


@chk.family("large", quick=30, thorough=len(BIG))
def large(ctx):
    check_basis(ctx, *(BIG[ctx.idx] if ctx.thorough or ctx.idx < 4 else ctx.rng.choice(BIG)))


@chk.family("espace_dim", quick=12, thorough=20)
def espace_dim(ctx):
    """Reported dimensions, sector by sector, and the empty sectors built from quantum numbers."""
    from edpyt.espace import build_empty_sector, get_espace_dim
    from edpyt.lookup import get_num_spins, get_sector_index
    from edpyt.sector import get_sector_dim
    n = 1 + ctx.idx % (10 if ctx.thorough else 6)
    ctx.note(n=n)
    dims = get_espace_dim(n)
    ctx.eq(int(np.sum(dims)), 4 ** n, "sum of the sector dimensions")
    seen = set()
    for nup in range(n + 1):
        for ndw in range(n + 1):
            k = int(get_sector_index(n, nup, ndw))
            seen.add(k)
            ctx.eq(tuple(int(x) for x in get_num_spins(k, n)), (nup, ndw), "sector index map is invertible")
            d = comb(n, nup) * comb(n, ndw)
            ctx.eq(int(get_sector_dim(n, nup, ndw)), d, "get_sector_dim")
            ctx.eq(int(dims[k]), d, "get_espace_dim of sector (%d,%d)" % (nup, ndw))
            if d <= 400:
                sct = build_empty_sector(n, nup, ndw)
                ctx.eq(int(sct.d), d, "dimension of the empty sector")
                ctx.same(sct.states.up, np.array(ref.basis(n, nup)), "up basis")
                ctx.same(sct.states.dw, np.array(ref.basis(n, ndw)), "down basis")
                ctx.check(sct.eigvals is None and sct.eigvecs is None, "an empty sector carries no solution")
                ctx.count("empty_sectors")
    ctx.eq(sorted(seen), list(range((n + 1) ** 2)), "sector indices enumerate all sectors")
    if n <= 6:
        dn = get_espace_dim(n, symmetry="N")
        ctx.eq([int(x) for x in dn], [comb(2 * n, k) for k in range(2 * n + 1)], "charge-sector dimensions")
        for N in range(2 * n + 1):
            if comb(2 * n, N) <= 300:
                sct = build_empty_sector(n, N)
                ctx.eq(int(sct.d), comb(2 * n, N), "dimension of the empty charge sector")
                ctx.same(sct.states, np.array(ref.basis(2 * n, N)), "charge basis")
    m = ctx.rng.randrange(1, 9)
    ctx.same(get_espace_dim(n, m), np.minimum(dims, m), "dimensions clipped to the maximum")
    ctx.nontrivial(n, m)


@chk.family("large_dim", quick=31, thorough=62)
def large_dim(ctx):
    """Dimensions of registers whose bases are too large to be written down."""
    from edpyt.espace import get_espace_dim
    from edpyt.lookup import get_num_spins, get_sector_index
    from edpyt.sector import get_sector_dim
    n = 1 + ctx.idx % 31
    ctx.note(n=n)
    dims = get_espace_dim(n)
    ctx.eq(len(dims), (n + 1) ** 2, "one dimension per sector")
    for nup in range(n + 1):
        for ndw in range(n + 1):
            d = comb(n, nup) * comb(n, ndw)
            ctx.eq(int(get_sector_dim(n, nup, ndw)), d, "get_sector_dim(%d,%d)" % (nup, ndw))
            ctx.eq(int(dims[int(get_sector_index(n, nup, ndw))]), d, "get_espace_dim of sector (%d,%d)" % (nup, ndw))
    ctx.eq([int(x) for x in get_espace_dim(n, symmetry="N")], [comb(2 * n, k) for k in range(2 * n + 1)], "charge-sector dimensions")
    m = ctx.rng.choice([1, 7, 1000, 10 ** 9])
    ctx.same(np.asarray(get_espace_dim(n, m)), np.minimum(dims, m), "dimensions clipped to the maximum")
    k = ctx.rng.randrange((n + 1) ** 2)
    ctx.eq(tuple(int(x) for x in get_num_spins(k, n)), (k // (n + 1), k % (n + 1)), "sector index map")
    ctx.nontrivial(n, m)


@chk.family("fresh", quick=60, thorough=600)
def fresh(ctx):
    """What a caller does to an array it was given does not show in later answers."""
    from edpyt.espace import build_empty_sector, get_espace_dim
    from edpyt.lookup import binrep
    from edpyt.sector import generate_states
    r = ctx.rng
    n = r.randint(1, 8)
    p, q, s = r.randint(0, n), r.randint(0, n), r.randrange(1 << n)
    m = r.choice([None, r.randint(1, 9)])
    ctx.note(n=n, p=p, q=q, s=s)
    asks = {
        "binrep": lambda: [binrep(s, n)],
        "generate_states": lambda: [generate_states(n, p)],
        "get_espace_dim": lambda: [get_espace_dim(n, m)],
        "get_espace_dim (charge)": lambda: [get_espace_dim(n, m, symmetry="N")],
        "build_empty_sector": lambda: list(build_empty_sector(n, p, q).states),
        "build_empty_sector (charge)": lambda: [build_empty_sector(min(n, 5), min(p, 5)).states],
    }
    for k in r.sample(sorted(asks), len(asks)):
        first = asks[k]()
        keep = [np.array(a) for a in first]
        for a in first:
            if a.flags.writeable:
                a[...] = 5
        for a, b in zip(asks[k](), keep):
            ctx.same(np.asarray(a), b, k + ": asked again after the caller changed the answer")
        ctx.count("asked_again")
    ctx.nontrivial(n, p, q, s)


@chk.family("maps", quick=400, thorough=6000)
def maps(ctx):
    from edpyt.lookup import binrep, get_spin_indices, get_state_index, intrep
    r = ctx.rng
    top = r.choice([40, 40, 1000, 300540195])             # the largest basis of one spin has 300540195 states
    dup, dwn = r.randint(1, top), r.randint(1, top)
    iup, idw = r.randrange(dup), r.randrange(dwn)
    i = int(get_state_index(iup, idw, dup))
    ctx.note(dup=dup, dwn=dwn, iup=iup, idw=idw)
    ctx.eq(i, iup + idw * dup, "get_state_index")
    ctx.eq(tuple(int(x) for x in get_spin_indices(i, dup, dwn)), (iup, idw), "get_spin_indices inverts get_state_index")
    n = r.randint(1, 31)
    s = r.choice([0, 1, (1 << n) - 1, 1 << (n - 1), r.randrange(1 << n), r.randrange(1 << n)])
    ctx.note(n=n, s=s)
    a = binrep(s, n)
    ctx.eq([int(x) for x in a], [(s >> k) & 1 for k in range(n)], "binrep (array)")
    t = binrep(s, n, "string")
    ctx.eq(t, "".join(str((s >> k) & 1) for k in range(n)), "binrep (string)")
    ctx.eq(int(intrep(a)), s, "intrep inverts binrep (array)")
    ctx.eq(int(intrep(t)), s, "intrep inverts binrep (string)")
    ctx.count("roundtrips", 4)
    ctx.nontrivial(dup, dwn, iup, idw, n, s)
    ctx.sample(n=n, s=s, bits=t, spin_index=(iup, idw), dup=dup)


@chk.family("neighbours", quick=60, thorough=600)
def neighbours(ctx):
    """Sectors reached by adding or removing a particle, and the errors at the borders."""
    from edpyt.sector import OutOfHilbertError, get_c_sector, get_cdg_sector
    r = ctx.rng
    n = r.randint(1, 8)
    nup, ndw, sp = r.randint(0, n), r.randint(0, n), r.randint(0, 1)
    ctx.note(n=n, nup=nup, ndw=ndw, ispin=sp)
    new = [nup, ndw]
    new[sp] += 1
    if new[sp] > n:
        ctx.raises(OutOfHilbertError, lambda: get_cdg_sector(n, nup, ndw, sp), "adding beyond the Hilbert space")
    else:
        ctx.eq(tuple(get_cdg_sector(n, nup, ndw, sp)), tuple(new), "get_cdg_sector")
    new = [nup, ndw]
    new[sp] -= 1
    if new[sp] < 0:
        ctx.raises(OutOfHilbertError, lambda: get_c_sector(nup, ndw, sp), "removing from an empty spin")
    else:
        ctx.eq(tuple(get_c_sector(nup, ndw, sp)), tuple(new), "get_c_sector")
    ctx.raises(RuntimeError, lambda: get_c_sector(nup, ndw, 2 + r.randint(0, 3)), "invalid spin")
    ctx.raises(RuntimeError, lambda: get_cdg_sector(n, nup, ndw, -1), "invalid spin")
    ctx.nontrivial(n, nup, ndw, sp)


@chk.family("numbering", quick=8, thorough=12)
def numbering(ctx):
    """Spectrum containers enumerate every sector in index order with the same bases."""
    from edpyt.espace import build_espace
    n = 1 + ctx.idx % 3
    rs = ctx.np
    H, V = ref.rand_H(rs, n), ref.rand_V(rs, n)
    ctx.note(n=n)
    espace, egs = build_espace(H, V)
    ctx.eq(list(espace), [(u, d) for u in range(n + 1) for d in range(n + 1)], "sectors of the eigenspace")
    for (u, d), sct in espace.items():
        ctx.same(sct.states.up, np.array(ref.basis(n, u)), "up basis")
        ctx.same(sct.states.dw, np.array(ref.basis(n, d)), "down basis")
        ctx.eq(int(sct.d), comb(n, u) * comb(n, d), "dimension")
    ctx.nontrivial(n, ctx.idx)


chk.main()
