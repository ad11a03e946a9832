SPECIFICATION Spec
CONSTANT MAXN = 4
INVARIANTS Unrelated Represented CountOK BurnsideOK
CHECK_DEADLOCK FALSE
