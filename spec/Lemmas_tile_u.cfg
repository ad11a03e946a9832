INIT Init
NEXT Next
CONSTANTS
 NGRID = {2}
 MAXSITES = 3
 ZS = {5, 6}
 SHAPES = {1, 2, 3, 4, 5}
INVARIANTS TileLemma OtherLemma
CHECK_DEADLOCK FALSE
