from numba import njit, jit
