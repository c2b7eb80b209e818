"""Helpers around the library's global settings and inputs (only public names)."""
import contextlib

import numpy as np


@contextlib.contextmanager
def settings(hfmode=False, mu=0., z=None):
    from edpyt.shared import params
    old = dict(params)
    params["hfmode"], params["mu"], params["z"] = hfmode, mu, z
    try:
        yield
    finally:
        params.clear()
        params.update(old)


def rand_settings(rs, n):
    hf = bool(rs.rand() < .4)
    mu = float(rs.choice([0., 0., rs.normal()]))
    z = None if rs.rand() < .6 else rs.uniform(0, 2, n)
    return dict(hfmode=hf, mu=mu, z=z)


def layout(rs, H):
    """The same matrix in various memory layouts; returns (array, kind)."""
    k = rs.randint(5)
    if k == 0:
        return np.ascontiguousarray(H), "C"
    if k == 1:
        return np.asfortranarray(H), "F"
    if k == 2:
        big = np.zeros(tuple(2 * s for s in H.shape))
        v = big[tuple(slice(None, None, 2) for _ in H.shape)]
        v[...] = H
        return v, "strided"
    if k == 3:
        h = np.array(H)
        h.flags.writeable = False
        return h, "readonly"
    return np.array(H), "copy"


class Frozen(object):
    """Remembers arrays and verifies they were left alone (values, shape, strides, writability)."""

    def __init__(self, **arrs):
        self.a = {k: (v, v.copy(), v.shape, v.flags.writeable) for k, v in arrs.items() if isinstance(v, np.ndarray)}

    def verify(self, ctx, mech=""):
        for k, (v, c, shp, w) in self.a.items():
            ctx.check(v.shape == shp, "%s keeps its shape" % k, mech, shape=v.shape, before=shp)
            ctx.check(np.array_equal(v, c, equal_nan=True) if v.dtype.kind in "fc" else np.array_equal(v, c),
                      "%s is left unmodified" % k, mech, before=c, after=v)
            ctx.check(v.flags.writeable == w, "%s keeps its write permission" % k, mech, before=w)
            ctx.count("arrays_guarded")


class Kept(object):
    """Results handed out earlier: later calls leave them alone, and writing to them changes no later result."""

    def __init__(self):
        self.k = []

    def add(self, *arrs):
        for a in arrs:
            if isinstance(a, np.ndarray):
                self.k.append((a, a.copy()))
        return arrs[0]

    def verify(self, ctx, spoil=True):
        for a, c in self.k:
            ctx.check(np.array_equal(a, c, equal_nan=True) if a.dtype.kind in "fc" else np.array_equal(a, c),
                      "an earlier result is left alone by later calls", before=c, after=a)
            ctx.count("results_kept")
        for a, c in self.k:
            if spoil and a.flags.writeable and a.flags.owndata:
                a[...] = -77
        self.k = []
