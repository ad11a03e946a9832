INIT Init
NEXT Next
CONSTANTS
 MAXN = 24
 SCALES = {1, 2, 3, 5, 7}
INVARIANTS Positions Lattice OnSite
CHECK_DEADLOCK FALSE
