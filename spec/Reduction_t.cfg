SPECIFICATION Spec
CONSTANT MAXN = 8
INVARIANTS Unrelated Represented CountOK BurnsideOK
CHECK_DEADLOCK FALSE
