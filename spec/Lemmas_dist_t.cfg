INIT Init
NEXT Next
CONSTANTS
 NGRID = {3, 4}
 MAXSITES = 2
 ZS = {5, 6}
 SHAPES = {1, 2, 3, 4, 5}
INVARIANTS Distances RangeLemma ClearLemma
CHECK_DEADLOCK FALSE
