from numba import jitclass
