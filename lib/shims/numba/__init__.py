"""Offline stand-in for numba: runs the decorated source as plain Python/NumPy.

numba is not installed in the sandbox.  The semantics given here are the ones numba
documents for nopython code: a jitted function computes what its Python source
computes.  Two things are emulated on purpose:

* ``prange`` inside a ``parallel=True`` function visits its iterations in an arbitrary
  (seeded) order, because numba gives no order: a loop whose result depends on the
  order is a race in the real system.  Outside such functions numba treats prange as
  range, and so does this module.
* ``vectorize``/``guvectorize`` build element-wise / layout-driven callables.
"""
import functools
import random
import re

import numpy as np

from . import types
from .types import *  # noqa: F401,F403

__version__ = "0.0-stub"

_state = {"parallel": 0, "mode": "forward", "rng": random.Random(0),
          "prange_calls": 0, "prange_shuffled": 0}


def _configure(mode="forward", seed=0):
    """mode: forward | reverse | shuffle - order of prange in parallel functions."""
    _state["mode"] = mode
    _state["rng"] = random.Random(seed)


def _stats():
    return {"prange_calls": _state["prange_calls"], "prange_shuffled": _state["prange_shuffled"]}


class prange(object):
    def __new__(cls, *args):
        r = range(*[int(a) for a in args])
        if _state["parallel"]:
            _state["prange_calls"] += 1
            if _state["mode"] != "forward" and len(r) > 1:
                _state["prange_shuffled"] += 1
                l = list(r)
                if _state["mode"] == "reverse":
                    l.reverse()
                else:
                    _state["rng"].shuffle(l)
                return l
        return r


def _wrap(func, options):
    if options.get("parallel"):
        @functools.wraps(func)
        def inner(*args, **kwargs):
            _state["parallel"] += 1
            try:
                return func(*args, **kwargs)
            finally:
                _state["parallel"] -= 1
    else:
        # A non-parallel function called from a parallel one runs its own prange as range.
        code = getattr(func, "__code__", None)
        if code is not None and "prange" in code.co_names:
            @functools.wraps(func)
            def inner(*args, **kwargs):
                saved, _state["parallel"] = _state["parallel"], 0
                try:
                    return func(*args, **kwargs)
                finally:
                    _state["parallel"] = saved
        else:
            return func
    inner.py_func = func
    return inner


def _is_signature(x):
    return isinstance(x, (str, list, tuple, types._Type))


def jit(*args, **options):
    if len(args) == 1 and callable(args[0]) and not _is_signature(args[0]) and not options:
        return _wrap(args[0], {})
    if args and callable(args[0]) and not _is_signature(args[0]):
        return _wrap(args[0], options)
    return lambda func: _wrap(func, options)


njit = jit
generated_jit = jit


def vectorize(*args, **options):
    otypes = None

    def build(func):
        def call(*a):
            arrs = [np.asarray(x) for x in a]
            b = np.broadcast(*arrs)
            flat = [func(*t) for t in b]
            if otypes is not None:
                out = np.array(flat, dtype=otypes)
            else:
                out = np.array(flat)
            out = out.reshape(b.shape)
            return out[()] if out.ndim == 0 else out
        return functools.wraps(func)(call)

    if args and callable(args[0]) and not _is_signature(args[0]):
        return build(args[0])
    sig = args[0] if args else None
    if isinstance(sig, (list, tuple)) and len(sig):
        sig = sig[-1]
    if isinstance(sig, str):
        name = sig.split("(")[0].strip()
        try:
            otypes = np.dtype(name)
        except TypeError:
            otypes = None
    return build


def _parse_layout(layout):
    ins, outs = layout.replace(" ", "").split("->")
    grab = lambda s: [tuple(x for x in g.split(",") if x) for g in re.findall(r"\(([^)]*)\)", s)]
    return grab(ins), grab(outs)


def guvectorize(ftylist, signature=None, **options):
    sig = ftylist[0] if isinstance(ftylist, (list, tuple)) else ftylist
    ins, outs = _parse_layout(signature)
    dts = []
    if isinstance(sig, str):
        for m in re.finditer(r"([a-z]+[0-9]*)\s*(\[[^\]]*\])?", sig):
            if m.group(1) != "void":
                dts.append(np.dtype(m.group(1)))
    nin = len(ins)

    def build(func):
        func = _wrap(func, options)

        def call(*args, **kw):
            out = kw.pop("out", None)
            outs_given = list(args[nin:]) or (list(out) if isinstance(out, tuple) else
                                              ([out] if out is not None else []))
            arrs = []
            for k in range(nin):
                a = np.asarray(args[k])
                if k < len(dts) and a.dtype != dts[k]:
                    if not np.can_cast(a.dtype, dts[k], "safe"):
                        raise TypeError("guvectorize: cannot safely cast %s to %s" % (a.dtype, dts[k]))
                    a = a.astype(dts[k])
                arrs.append(a)
            dims = {}
            loops = []
            for a, lay in zip(arrs, ins):
                if a.ndim < len(lay):
                    raise ValueError("guvectorize: operand does not have enough dimensions")
                core = a.shape[a.ndim - len(lay):]
                for nme, s in zip(lay, core):
                    if dims.setdefault(nme, s) != s:
                        raise ValueError("guvectorize: mismatch in core dimension " + nme)
                loops.append(a.shape[:a.ndim - len(lay)])
            loop = np.broadcast(*[np.empty(l) for l in loops]).shape if loops else ()
            res = []
            for k, lay in enumerate(outs):
                shape = tuple(loop) + tuple(dims[nme] for nme in lay)
                if k < len(outs_given):
                    o = outs_given[k]
                    if o.shape != shape:
                        raise ValueError("guvectorize: output has the wrong shape")
                else:
                    dt = dts[nin + k] if nin + k < len(dts) else float
                    o = np.empty(shape, dt)
                    o[...] = np.nan  # numba leaves it uninitialised
                res.append(o)
            for idx in np.ndindex(*loop):
                a_in = []
                for a, lay, l in zip(arrs, ins, loops):
                    ii = idx[len(idx) - len(l):] if len(l) else ()
                    ii = tuple(0 if s == 1 else i for i, s in zip(ii, l))
                    a_in.append(a[ii] if len(lay) or len(ii) else a[()])
                a_out = [o[idx] if len(lay) else o[idx + (None,)] for o, lay in zip(res, outs)]
                func(*(a_in + a_out))
            return res[0] if len(res) == 1 else tuple(res)
        return functools.wraps(func)(call)
    return build


def jitclass(*args, **kw):
    if len(args) == 1 and isinstance(args[0], type):
        return args[0]
    return lambda cls: cls


def objmode(*a, **k):
    import contextlib
    return contextlib.nullcontext()


def set_num_threads(n):
    pass


def get_num_threads():
    return 1


class _Config(object):
    def __setattr__(self, k, v):
        object.__setattr__(self, k, v)

    def __getattr__(self, k):
        return 0


config = _Config()
