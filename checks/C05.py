"""C05: the matrix-free product equals the dense operator times the vector."""
import numpy as np

import edp
import ref
from vlib import Check

chk = Check("C05", needs=("psparse",), omp=4,
            rule="Random and structured CSR matrices (empty rows, no entries, duplicates, unsorted indices, single "
                 "row, wide and tall spin spaces) and vectors (basis vectors, zeros, huge/tiny, random) through the "
                 "compiled kernels and through every operator list the Hamiltonian builder makes. Oracle: dense Kronecker "
                 "products. Non-trivial: the matrix has an entry and the vector is not zero.",
            assumptions=["numba-compiled functions behave as their Python source (numba is not installed)"])


def rand_csr(ctx, m, n):
    """CSR triple with the irregularities a CSR matrix may have, and its dense form."""
    import scipy.sparse as sp
    r, rs = ctx.rng, ctx.np
    kind = r.choice(["random", "random", "empty", "rows", "dups", "unsorted", "full", "one", "last", "explicit0"])
    if kind == "empty":
        cols = [[] for _ in range(m)]
    elif kind == "full":
        cols = [list(range(n)) for _ in range(m)]
    elif kind == "one":
        cols = [[] for _ in range(m)]
        cols[r.randrange(m)].append(r.randrange(n))
    elif kind == "last":
        cols = [[] for _ in range(m)]
        cols[m - 1] = [0, n - 1] if n > 1 else [0]
    else:
        p = {"rows": .5, "random": .3}.get(kind, .4)
        cols = [[j for j in range(n) if r.random() < p] if (kind != "rows" or r.random() < .5) else [] for _ in range(m)]
    if kind == "dups":
        cols = [c + [r.choice(c) for _ in range(2)] if c else c for c in cols]
    if kind in ("dups", "unsorted"):
        for c in cols:
            r.shuffle(c)
    indptr = np.cumsum([0] + [len(c) for c in cols]).astype(np.int32)
    indices = np.array([j for c in cols for j in c], dtype=np.int32)
    data = rs.normal(size=len(indices)) * 10. ** rs.randint(-3, 4)
    if kind == "explicit0" and len(data):
        data[::2] = 0.
    dense = np.zeros((m, n))
    for i in range(m):
        for p in range(indptr[i], indptr[i + 1]):
            dense[i, indices[p]] += data[p]
    X = sp.csr_matrix((data, indices, indptr), shape=(m, n))
    return X, dense, kind


def rand_vec(ctx, d):
    r, rs = ctx.rng, ctx.np
    k = r.choice(["normal", "normal", "basis", "zero", "wide", "ones"])
    if k == "basis":
        v = np.zeros(d)
        v[r.randrange(d)] = 1.
    elif k == "zero":
        v = np.zeros(d)
    elif k == "wide":
        v = rs.normal(size=d) * 10. ** rs.uniform(-8, 8, d)
    elif k == "ones":
        v = np.ones(d)
    else:
        v = rs.normal(size=d)
    return v, k


def kernel(ctx, which, m, n, other):
    from edpyt import _psparse
    X, D, kind = rand_csr(ctx, m, n)
    def full(D, v):
        """(1 x D) v, (D x 1) v or D v."""
        if which == "UP":
            return v.reshape(other, n).dot(D.T).ravel()
        return D.dot(v.reshape(n, -1)).ravel()
    W, vk = rand_vec(ctx, n * other)
    res0 = ctx.np.normal(size=m * other) if ctx.rng.random() < .7 else np.zeros(m * other)
    res = res0.copy()
    ctx.note(kernel=which, shape=(m, n), other=other, kind=kind, vector=vk, D=D, W=W)
    g = edp.Frozen(W=W, data=X.data, indices=X.indices, indptr=X.indptr)
    getattr(_psparse, {"UP": "UPmultiply", "DW": "DWmultiply", "": "Multiply"}[which])(X, W, res)
    g.verify(ctx)
    scale = full(np.abs(D), np.abs(W)).max() + np.abs(res0).max() if res.size else 1.
    ctx.close(res, res0 + full(D, W), which + "multiply (%s, %s)" % (kind, vk), atol=1e-12 * scale + 1e-300, rtol=1e-11)
    ctx.count("kernel_calls")
    if X.nnz and W.any():
        ctx.nontrivial(which, m, n, other, kind, vk, ctx.seed)
    ctx.sample(kernel=which, shape=(m, n), other=other, kind=kind, vector=vk)
    return res


# sizes of the other spin: every remainder of the usual block lengths
OTHER = [1, 2, 3, 7, 16, 40, 90, 9, 17] + list(range(4, 36)) + [63, 64, 65, 66, 127, 128, 129]


@chk.family("kernel_up", quick=1500, thorough=12000)
def kernel_up(ctx):
    m = ctx.rng.choice([1, 2, 3, 5, 10, 20, 33, 70, ctx.rng.randint(1, 70)])
    kernel(ctx, "UP", m, m, ctx.rng.choice(OTHER))


@chk.family("kernel_dw", quick=1500, thorough=12000)
def kernel_dw(ctx):
    m = ctx.rng.choice([1, 2, 3, 5, 10, 20, 33, 70])
    kernel(ctx, "DW", m, m, ctx.rng.choice(OTHER if m < 30 else OTHER[:9]))


@chk.family("kernel_full", quick=1200, thorough=9000)
def kernel_full(ctx):
    m = ctx.rng.choice([1, 2, 3, 9, 30, 70, ctx.rng.randint(1, 70)])
    kernel(ctx, "", m, ctx.rng.choice([m, m, 1, 4, 25]), 1)


@chk.family("reject", quick=20, thorough=100)
def reject(ctx):
    """Column-major matrices are refused, never multiplied as if they were rows."""
    from edpyt import _psparse
    X, D, kind = rand_csr(ctx, 6, 6)
    f = ctx.rng.choice(["UPmultiply", "DWmultiply", "Multiply"])
    W, res = ctx.np.normal(size=18), np.zeros(18)
    ctx.note(kernel=f)
    ctx.raises(NotImplementedError, lambda: getattr(_psparse, f)(X.tocsc(), W, res), "csc matrix")
    ctx.check(not res.any(), "a rejected product leaves the result alone")


@chk.family("operators", quick=800, thorough=4000)
def operators(ctx):
    from edpyt.build_mb_ham import build_mb_ham
    from edpyt.espace import build_empty_sector
    from edpyt.matvec_product import matvec_operator, todense
    r, rs = ctx.rng, ctx.np
    n = r.choice([1, 2, 3, 3, 4, 4, 5])
    charge = r.random() < .2 and n < 4
    H = ref.rand_H(rs, n, spin=rs.rand() < .5)
    V = ref.rand_V(rs, n)
    kind = "U"
    if r.random() < .3 and n > 1:
        V = {"U": V}
        for k in r.sample(["Jx", "Jp"], r.randint(1, 2)):
            V[k] = ref.rand_J(rs, n)
            kind += k
    q = (r.randint(0, 2 * n),) if charge else (r.randint(0, n), r.randint(0, n))
    ctx.note(n=n, qns=q, H=H, V=V)
    sct = build_empty_sector(n, *q)
    with edp.settings(**edp.rand_settings(rs, n)):
        ops = build_mb_ham(H, V, sct)
        M = np.asarray(todense(*ops))
        M2 = np.asarray(todense(*ops))
    ctx.same(M2, M, "dense form is the same on repetition")
    ctx.eq(M.shape, (sct.d, sct.d), "shape of the dense form")
    mv = matvec_operator(*ops)
    v, vk = rand_vec(ctx, sct.d)
    w, _ = rand_vec(ctx, sct.d)
    g = edp.Frozen(v=v, w=w)
    ctx.note(v=v, w=w, vector=vk)
    scale = 1e-12 * (np.abs(M).dot(np.abs(v)).max() + 1e-290)
    y = mv(v)
    ctx.close(y, M.dot(v), "product (%s)" % kind, atol=scale, rtol=1e-10)
    ctx.check(y is not v and not np.shares_memory(y, v), "the product is a new vector")
    ctx.same(mv(v), y, "same result on repetition")
    out = np.full(sct.d, np.nan)
    y2 = mv(v, out)
    ctx.same(out, y, "same result in a caller-supplied output vector")
    ctx.same(y2, y, "returned result with a caller-supplied output vector")
    a, b = rs.normal(size=2)
    yw = mv(w)
    s2 = 1e-11 * (np.abs(M).dot(np.abs(v) + np.abs(w)).max() + 1e-290)
    ctx.close(mv(a * v + b * w), a * y + b * yw, "linearity", atol=s2, rtol=1e-9)
    ctx.close(w.dot(y), v.dot(yw), "symmetry", atol=1e-10 * (np.abs(w).dot(np.abs(M)).dot(np.abs(v)) + 1e-290), rtol=1e-9)
    g.verify(ctx)
    ctx.same(np.asarray(todense(*ops)), M, "the operators are left untouched")
    ctx.count("operator_lists:" + ("N:" if charge else "") + kind)
    if v.any() and M.any():
        ctx.nontrivial(n, q, kind, vk, ctx.seed)
    ctx.sample(n=n, qns=q, kind=kind, vector=vk, H=H)


@chk.family("order", quick=150, thorough=600)
def order(ctx):
    """Lists without some of the parts: local only, local + one hopping operator."""
    from edpyt.build_mb_ham import build_mb_ham
    from edpyt.espace import build_empty_sector
    from edpyt.matvec_product import matvec_operator, todense
    r, rs = ctx.rng, ctx.np
    n = r.choice([2, 3, 4])
    q = (r.randint(0, n), r.randint(0, n))
    sct = build_empty_sector(n, *q)
    ops = build_mb_ham(ref.rand_H(rs, n, spin=True), ref.rand_V(rs, n), sct)
    rest = list(ops[1:])
    r.shuffle(rest)
    sub = [ops[0]] + rest[:r.randint(0, len(rest))]
    ctx.note(n=n, qns=q, operators=[type(o).__name__ for o in sub])
    M = np.asarray(todense(*sub))
    v = rs.normal(size=sct.d)
    ctx.close(matvec_operator(*sub)(v), M.dot(v), "product of a partial list", atol=1e-11)
    ctx.nontrivial(n, q, len(sub), ctx.seed)


chk.main()
