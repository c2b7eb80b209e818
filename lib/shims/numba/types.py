"""Permissive numba type objects: only good for writing signatures."""


class _Type(object):
    def __init__(self, name):
        self.name = name

    def __getitem__(self, item):
        return _Type(self.name + "[...]")

    def __call__(self, *args, **kw):
        # float64(1.0) is a cast in numba; float64(float64, int64) is a signature.
        if len(args) == 1 and not isinstance(args[0], _Type) and isinstance(args[0], (int, float, complex)):
            import numpy as np
            return np.dtype(self.name).type(args[0])
        return _Type(self.name + "(...)")

    def __repr__(self):
        return self.name


_names = ["void", "none", "boolean", "bool_", "b1", "uint8", "uint16", "uint32", "uint64",
          "int8", "int16", "int32", "int64", "intp", "uintp", "intc", "float32", "float64",
          "f4", "f8", "i4", "i8", "u4", "u8", "complex64", "complex128", "c8", "c16", "double",
          "unicode_type", "pyobject", "UniTuple", "Tuple", "Array", "List", "ListType", "DictType",
          "Optional", "optional", "NamedTuple", "FunctionType"]
for _n in _names:
    globals()[_n] = _Type(_n)
__all__ = list(_names)


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return _Type(name)
