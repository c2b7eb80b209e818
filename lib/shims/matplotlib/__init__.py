"""Inert stand-in: plotting is not under test."""
import sys
import types


class _Any(types.ModuleType):
    __path__ = []

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return _any

    def __call__(self, *a, **k):
        return _any


class _Obj(object):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return self

    def __call__(self, *a, **k):
        return self

    def __iter__(self):
        return iter((self, self))


_any = _Obj()
for _m in ("pyplot", "colors", "cm", "patches", "collections", "ticker"):
    _mod = _Any("matplotlib." + _m)
    sys.modules["matplotlib." + _m] = _mod
    globals()[_m] = _mod


def __getattr__(k):
    if k.startswith("__"):
        raise AttributeError(k)
    return _any
