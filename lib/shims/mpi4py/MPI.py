from fakempi import (  # noqa: F401
    SUM, MAX, MIN, IN_PLACE, DOUBLE, COMPLEX16, INT, LONG, COMM_WORLD, COMM_SELF, Comm, Intracomm, COMM_NULL)
C_DOUBLE_COMPLEX = DOUBLE_COMPLEX = COMPLEX = COMPLEX16
FLOAT64 = DOUBLE
