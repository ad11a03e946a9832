INIT Init
NEXT Next
CONSTANTS
 MAXN = 48
 SCALES = {1, 2, 3, 5, 7}
INVARIANTS Positions Lattice OnSite
CHECK_DEADLOCK FALSE
