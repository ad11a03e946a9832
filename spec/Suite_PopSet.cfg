INIT Init
NEXT Next
CONSTANT DEPTH = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
