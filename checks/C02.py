"""C02: creation and annihilation operators satisfy the fermionic algebra."""
import numpy as np

from vlib import Check

chk = Check("C02", needs=(),
            rule="Exhaustive over every bit pattern and position pair of small registers; random patterns, positions "
                 "and integer types for registers up to 31 levels (spin-up and spin-down sharing one register). "
                 "Non-trivial: at least one of the operators applied does not annihilate the state.",
            assumptions=["numba-compiled functions behave as their Python source (numba is not installed)"])



def ap(op, v, pos, n):
    """Apply through the library; rejected states become the zero vector."""
    if v is None:
        return None
    try:
        sg, f = op(np.uint32(v[1]), pos, n)
    except AssertionError:
        return None
    return int(sg) * v[0], int(f)


def add(a, b):
    out = {}
    for v in (a, b):
        if v is not None:
            out[v[1]] = out.get(v[1], 0) + v[0]
    return {k: x for k, x in out.items() if x}


def one(ctx, s, i, j, n, exhaustive):
    from edpyt.operators import c, cdg, cdgc, check_empty, check_full, flip, fsgn
    ctx.note(state=bin(s), i=i, j=j, n=n)
    us = np.uint32(s)
    occ = (s >> i) & 1
    ctx.eq(bool(check_full(us, i)), bool(occ), "check_full")
    ctx.eq(bool(check_empty(us, i)), not occ, "check_empty")
    ctx.eq(int(flip(us, i)), s ^ (1 << i), "flip")
    sign = 1 - 2 * (bin(s >> (i + 1)).count("1") & 1)
    ctx.eq(int(fsgn(us, i, n)), sign, "fsgn")
    # exactly that bit, +-1, rejected where the operator annihilates
    op, bad = (c, cdg) if occ else (cdg, c)
    r = ctx.raises(Exception, lambda: bad(us, i, n), "operator that annihilates the state")
    sg, f = op(us, i, n)
    ctx.eq(int(f), s ^ (1 << i), "resulting pattern")
    ctx.check(int(sg) in (1, -1), "sign is +-1", sign=int(sg))
    ctx.eq(int(sg), sign, "fermionic sign counts the occupied levels above")
    # adjointness <f|c+|s> = <s|c|f>
    sg2, s2 = bad(np.uint32(int(f)), i, n)
    ctx.eq((int(sg2), int(s2)), (int(sg), s), "creation is the adjoint of annihilation")
    # anticommutators
    v = (1, s)
    want = {s: 1} if i == j else {}
    ctx.eq(add(ap(c, ap(cdg, v, j, n), i, n), ap(cdg, ap(c, v, i, n), j, n)), want, "{c_i, c+_j} = delta_ij")
    ctx.eq(add(ap(c, ap(c, v, j, n), i, n), ap(c, ap(c, v, i, n), j, n)), {}, "{c_i, c_j} = 0")
    ctx.eq(add(ap(cdg, ap(cdg, v, j, n), i, n), ap(cdg, ap(cdg, v, i, n), j, n)), {}, "{c+_i, c+_j} = 0")
    ctx.count("anticommutators", 3)
    # combined hop c+_i c_j
    if (s >> j) & 1 and (i == j or not occ):
        two = ap(cdg, ap(c, v, j, n), i, n)
        sg, f = cdgc(us, i, j)
        ctx.eq((int(sg), int(f)), two, "cdgc equals c+_i c_j")
        ctx.count("hops")
        ctx.nontrivial(s, i, j, n)


EX = [(n, s) for n in range(1, 9) for s in range(1 << n)]


@chk.family("exhaustive", quick=len([1 for n, s in EX if n <= 6]), thorough=len(EX))
def exhaustive(ctx):
    n, s = EX[ctx.idx]
    for i in range(n):
        for j in range(n):
            one(ctx, s, i, j, n, True)
    ctx.sample(n=n, state=bin(s), pairs=n * n)


@chk.family("wide", quick=1500, thorough=40000)
def wide(ctx):
    r = ctx.rng
    n = r.randint(8, 31)
    s = r.choice([0, (1 << n) - 1, r.randrange(1 << n), r.randrange(1 << n) & r.randrange(1 << n),
                  r.randrange(1 << n) | r.randrange(1 << n)])
    i, j = r.randrange(n), r.randrange(n)
    k = ctx.idx % 5
    if k == 0:
        i, j = n - 1, r.randrange(n)
    elif k == 1:
        i, j = r.randrange(n), 0
    elif k == 2:
        j = i
    elif k == 3:
        j = min(n - 1, i + 1)
    if ctx.idx % 3 == 0:
        i, j = np.int64(i), np.int64(j)
    one(ctx, s, i, j, n, False)
    ctx.sample(n=n, state=bin(s), i=int(i), j=int(j))


@chk.family("strings", quick=400, thorough=6000)
def strings(ctx):
    """Whole operator strings against the independent reference, and normal ordering."""
    import ref
    from edpyt.operators import c, cdg
    r = ctx.rng
    n = r.randint(2, 20)
    s = r.randrange(1 << n)
    ops = []
    t = s
    for _ in range(r.randint(2, 8)):
        pos = r.randrange(n)
        ops.append(("-" if (t >> pos) & 1 else "+", pos))
        t ^= 1 << pos
    if r.random() < .2:
        ops.append((r.choice("+-"), r.randrange(n)))
    v = (1, s)
    for kind, pos in ops:
        v = ap(cdg if kind == "+" else c, v, pos, n)
    sg, f = ref.apply(ops[::-1], np.array([s]), n)
    ctx.note(n=n, state=bin(s), ops=ops)
    if sg[0] == 0:
        ctx.check(v is None, "string annihilates the state", got=v)
    else:
        ctx.eq(v, (int(sg[0]), int(f[0])), "operator string")
        ctx.nontrivial(s, tuple(ops))
    ctx.count("strings")
    ctx.sample(n=n, state=bin(s), ops=ops)


chk.main()
