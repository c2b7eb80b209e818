from numba import types
