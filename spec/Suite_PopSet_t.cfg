INIT Init
NEXT Next
CONSTANT DEPTH = 6
INVARIANT Emit
CHECK_DEADLOCK FALSE
