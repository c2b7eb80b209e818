"""Stand-in for mpi4py (see fakempi.py): one process plays all ranks."""
from . import MPI  # noqa: F401
