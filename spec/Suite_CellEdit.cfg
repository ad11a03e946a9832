INIT SInit
NEXT SNext
CONSTANTS
 SITES <- Sites
 IDX <- Idx
 MAXLEN = 6
 MAXCELLS = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
