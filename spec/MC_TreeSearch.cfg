SPECIFICATION Spec
CONSTANTS
 ACTS = {1, 2}
 DEPTH = 2
 PLAYOUTS = 3
 VALUES <- Vals
 C10 = 10
 MOVES = 1
INVARIANTS Flow Bounded Shape Stamps
CHECK_DEADLOCK FALSE
